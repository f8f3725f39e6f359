//! Independent MQTT 3.1.1 / 5.0 reference codec, written from the OASIS specifications.
//! `refdec` classifies one complete frame; `refenc` produces the canonical bytes of a packet.
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::*;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::mqttv5::will::{Will, WillProperties};
use flowsdk::mqtt_serde::mqttv3::connectv3::Will as Will3;

#[derive(Debug, Clone, PartialEq)]
pub struct Rej(pub &'static str);
type R<T> = Result<T, Rej>;

/// What the first bytes of a buffer say about its first frame.
#[derive(Debug, Clone, PartialEq)]
pub enum Framing {
    Incomplete,
    Bad(&'static str),
    Frame { hdr: usize, total: usize },
}
pub fn framing(b: &[u8]) -> Framing {
    if b.is_empty() {
        return Framing::Incomplete;
    }
    let mut v = 0usize;
    let mut m = 1usize;
    for i in 0..4 {
        let Some(&x) = b.get(1 + i) else { return Framing::Incomplete };
        v += (x & 127) as usize * m;
        m *= 128;
        if x & 128 == 0 {
            if i > 0 && x == 0 {
                return Framing::Bad("vbi-not-minimal");
            }
            let hdr = 2 + i;
            if b.len() < hdr + v {
                return Framing::Incomplete;
            }
            return Framing::Frame { hdr, total: hdr + v };
        }
    }
    Framing::Bad("vbi-too-long")
}

struct Cur<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn u8(&mut self) -> R<u8> {
        let x = *self.b.get(self.i).ok_or(Rej("overrun"))?;
        self.i += 1;
        Ok(x)
    }
    fn u16(&mut self) -> R<u16> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn u32(&mut self) -> R<u32> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn bytes(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return Err(Rej("overrun"));
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.bytes(n)?.to_vec())
    }
    fn str(&mut self) -> R<String> {
        let n = self.u16()? as usize;
        let s = std::str::from_utf8(self.bytes(n)?).map_err(|_| Rej("utf8"))?;
        if s.contains('\0') {
            return Err(Rej("nul-in-string"));
        }
        Ok(s.to_string())
    }
    fn vbi(&mut self) -> R<usize> {
        let mut v = 0usize;
        let mut m = 1usize;
        for i in 0..4 {
            let x = self.u8()?;
            v += (x & 127) as usize * m;
            m *= 128;
            if x & 128 == 0 {
                if i > 0 && x == 0 {
                    return Err(Rej("vbi-not-minimal"));
                }
                return Ok(v);
            }
        }
        Err(Rej("vbi-too-long"))
    }
    fn rest(&mut self) -> Vec<u8> {
        let r = self.b[self.i..].to_vec();
        self.i = self.b.len();
        r
    }
    fn end(&self) -> R<()> {
        if self.left() == 0 {
            Ok(())
        } else {
            Err(Rej("trailing-in-frame"))
        }
    }
}

pub fn prop_id(p: &Property) -> u8 {
    use Property::*;
    match p {
        PayloadFormatIndicator(_) => 0x01,
        MessageExpiryInterval(_) => 0x02,
        ContentType(_) => 0x03,
        ResponseTopic(_) => 0x08,
        CorrelationData(_) => 0x09,
        SubscriptionIdentifier(_) => 0x0b,
        SessionExpiryInterval(_) => 0x11,
        AssignedClientIdentifier(_) => 0x12,
        ServerKeepAlive(_) => 0x13,
        AuthenticationMethod(_) => 0x15,
        AuthenticationData(_) => 0x16,
        RequestProblemInformation(_) => 0x17,
        WillDelayInterval(_) => 0x18,
        RequestResponseInformation(_) => 0x19,
        ResponseInformation(_) => 0x1a,
        ServerReference(_) => 0x1c,
        ReasonString(_) => 0x1f,
        ReceiveMaximum(_) => 0x21,
        TopicAliasMaximum(_) => 0x22,
        TopicAlias(_) => 0x23,
        MaximumQoS(_) => 0x24,
        RetainAvailable(_) => 0x25,
        UserProperty(_, _) => 0x26,
        MaximumPacketSize(_) => 0x27,
        WildcardSubscriptionAvailable(_) => 0x28,
        SubscriptionIdentifierAvailable(_) => 0x29,
        SharedSubscriptionAvailable(_) => 0x2a,
    }
}

/// Property ids the specification allows in each packet (0 = will).
pub fn allowed(ptype: u8) -> &'static [u8] {
    match ptype {
        0 => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26],
        1 => &[0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16],
        2 => &[0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1f, 0x26, 0x28, 0x29, 0x2a, 0x13, 0x1a, 0x1c, 0x15, 0x16],
        3 => &[0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0b, 0x03],
        4 | 5 | 6 | 7 => &[0x1f, 0x26],
        8 => &[0x0b, 0x26],
        9 | 11 => &[0x1f, 0x26],
        10 => &[0x26],
        14 => &[0x11, 0x1f, 0x26, 0x1c],
        15 => &[0x15, 0x16, 0x1f, 0x26],
        _ => &[],
    }
}

fn props(c: &mut Cur, ptype: u8) -> R<Vec<Property>> {
    let v = props_raw(c)?;
    check_props(&v, ptype)?;
    Ok(v)
}
fn props_raw(c: &mut Cur) -> R<Vec<Property>> {
    let n = c.vbi()?;
    let mut p = Cur { b: c.bytes(n).map_err(|_| Rej("property-length-overrun"))?, i: 0 };
    let mut v = vec![];
    while p.left() > 0 {
        let id = p.vbi()?;
        use Property::*;
        let x = match id {
            0x01 => PayloadFormatIndicator(p.u8()?),
            0x02 => MessageExpiryInterval(p.u32()?),
            0x03 => ContentType(p.str()?),
            0x08 => ResponseTopic(p.str()?),
            0x09 => CorrelationData(p.bin()?),
            0x0b => SubscriptionIdentifier(p.vbi()? as u32),
            0x11 => SessionExpiryInterval(p.u32()?),
            0x12 => AssignedClientIdentifier(p.str()?),
            0x13 => ServerKeepAlive(p.u16()?),
            0x15 => AuthenticationMethod(p.str()?),
            0x16 => AuthenticationData(p.bin()?),
            0x17 => RequestProblemInformation(p.u8()?),
            0x18 => WillDelayInterval(p.u32()?),
            0x19 => RequestResponseInformation(p.u8()?),
            0x1a => ResponseInformation(p.str()?),
            0x1c => ServerReference(p.str()?),
            0x1f => ReasonString(p.str()?),
            0x21 => ReceiveMaximum(p.u16()?),
            0x22 => TopicAliasMaximum(p.u16()?),
            0x23 => TopicAlias(p.u16()?),
            0x24 => MaximumQoS(p.u8()?),
            0x25 => RetainAvailable(p.u8()?),
            0x26 => UserProperty(p.str()?, p.str()?),
            0x27 => MaximumPacketSize(p.u32()?),
            0x28 => WildcardSubscriptionAvailable(p.u8()?),
            0x29 => SubscriptionIdentifierAvailable(p.u8()?),
            0x2a => SharedSubscriptionAvailable(p.u8()?),
            _ => return Err(Rej("unknown-property")),
        };
        v.push(x);
    }
    Ok(v)
}

/// Semantic property rules; the names end in "*" because the SDK does not claim to enforce them.
pub fn check_props(v: &[Property], ptype: u8) -> R<()> {
    use Property::*;
    for (i, p) in v.iter().enumerate() {
        let id = prop_id(p);
        if !allowed(ptype).contains(&id) {
            return Err(Rej("property-not-allowed-here*"));
        }
        if id != 0x26 && !(id == 0x0b && ptype == 3) && v[..i].iter().any(|q| prop_id(q) == id) {
            return Err(Rej("duplicate-property*"));
        }
        let bad = match p {
            PayloadFormatIndicator(x) | RequestProblemInformation(x) | RequestResponseInformation(x) | MaximumQoS(x) | RetainAvailable(x) | WildcardSubscriptionAvailable(x) | SubscriptionIdentifierAvailable(x) | SharedSubscriptionAvailable(x) => *x > 1,
            SubscriptionIdentifier(x) => *x == 0 || *x > 268_435_455,
            ReceiveMaximum(x) | TopicAlias(x) => *x == 0,
            MaximumPacketSize(x) => *x == 0,
            ResponseTopic(s) => s.is_empty() || s.contains(['#', '+']),
            _ => false,
        };
        if bad {
            return Err(Rej("property-value*"));
        }
    }
    Ok(())
}

pub fn filter_ok(f: &str) -> R<()> {
    if f.is_empty() {
        return Err(Rej("empty-filter"));
    }
    let n = f.split('/').count();
    for (i, l) in f.split('/').enumerate() {
        if l.contains('#') && (l != "#" || i + 1 != n) {
            return Err(Rej("filter-hash"));
        }
        if l.contains('+') && l != "+" {
            return Err(Rej("filter-plus"));
        }
    }
    Ok(())
}
pub fn share_ok(f: &str) -> R<()> {
    if let Some(rest) = f.strip_prefix("$share/") {
        let (name, filt) = rest.split_once('/').ok_or(Rej("share-format"))?;
        if name.is_empty() || filt.is_empty() {
            return Err(Rej("share-format"));
        }
        if name.contains(['+', '#']) {
            return Err(Rej("share-name-wildcard"));
        }
        filter_ok(filt)?;
    }
    Ok(())
}

/// Decodes one complete frame (exactly `total` bytes) as the given version.
pub fn refdec(f: &[u8], hdr: usize, ver: u8) -> R<MqttPacket> {
    let ptype = f[0] >> 4;
    let flags = f[0] & 15;
    let size = f.len() - hdr;
    let mut c = Cur { b: f, i: hdr };
    let want_flags = match ptype {
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if ptype == 0 || (ptype == 15 && ver != 5) {
        return Err(Rej("packet-type"));
    }
    if ptype != 3 && flags != want_flags {
        // which packet types the SDK documents the check for
        return Err(Rej(match (ver, ptype) {
            (5, 6) | (5, 8) | (5, 10) | (5, 12) | (5, 13) | (5, 14) | (5, 15) => "fixed-header-flags",
            (5, _) => "fixed-header-flags-undocumented*",
            _ => "fixed-header-flags-v3",
        }));
    }
    match ptype {
        1 => {
            let name = c.str()?;
            let pv = c.u8()?;
            if name != "MQTT" {
                return Err(Rej(if ver != 5 && name == "MQIsdp" { "protocol-3.1*" } else { "protocol-name" }));
            }
            if pv != if ver == 5 { 5 } else { 4 } {
                return Err(Rej(if ver == 5 { "protocol-version*" } else { "protocol-version" }));
            }
            let fl = c.u8()?;
            if fl & 1 != 0 {
                return Err(Rej("connect-reserved-flag"));
            }
            let wq = (fl >> 3) & 3;
            if fl & 4 == 0 && wq != 0 {
                return Err(Rej("will-qos-without-will"));
            }
            if fl & 4 == 0 && fl & 0x20 != 0 {
                return Err(Rej("will-retain-without-will"));
            }
            if wq == 3 {
                return Err(Rej("will-qos-3"));
            }
            if ver != 5 && fl & 0x40 != 0 && fl & 0x80 == 0 {
                return Err(Rej("password-without-username"));
            }
            let ka = c.u16()?;
            let pr = if ver == 5 { props(&mut c, 1)? } else { vec![] };
            let cid = c.str()?;
            let mut will5 = None;
            let mut will3 = None;
            if fl & 4 != 0 {
                let wp = if ver == 5 { props(&mut c, 0)? } else { vec![] };
                let t = c.str()?;
                let m = c.bin()?;
                if t.is_empty() {
                    return Err(Rej("will-topic-empty*"));
                }
                if t.contains(['#', '+']) {
                    return Err(Rej("will-topic-wildcard*"));
                }
                if ver == 5 {
                    let mut w = WillProperties::default();
                    for p in wp {
                        match p {
                            Property::WillDelayInterval(x) => w.will_delay_interval = Some(x),
                            Property::PayloadFormatIndicator(x) => w.payload_format_indicator = Some(x),
                            Property::MessageExpiryInterval(x) => w.message_expiry_interval = Some(x),
                            Property::ContentType(x) => w.content_type = Some(x),
                            Property::ResponseTopic(x) => w.response_topic = Some(x),
                            Property::CorrelationData(x) => w.correlation_data = Some(x),
                            p => w.user_properties.push(p),
                        }
                    }
                    will5 = Some(Will { will_qos: wq, will_retain: fl & 0x20 != 0, will_topic: t, will_message: m, properties: w });
                } else {
                    will3 = Some(Will3 { retain: fl & 0x20 != 0, qos: wq, topic: t, message: m });
                }
            }
            let user = if fl & 0x80 != 0 { Some(c.str()?) } else { None };
            let pass = if fl & 0x40 != 0 { Some(c.bin()?) } else { None };
            c.end()?;
            if ver != 5 && cid.is_empty() && fl & 2 == 0 {
                return Err(Rej("empty-client-id*"));
            }
            Ok(if ver == 5 {
                MqttPacket::Connect5(connectv5::MqttConnect { protocol_name: name, protocol_version: 5, keep_alive: ka, client_id: cid, will: will5, username: user, password: pass, properties: pr, clean_start: fl & 2 != 0 })
            } else {
                MqttPacket::Connect3(connectv3::MqttConnect { protocol_name: name, protocol_version: 4, clean_session: fl & 2 != 0, keep_alive: ka, client_id: cid, will: will3, username: user, password: pass })
            })
        }
        2 => {
            let a = c.u8()?;
            let rc = c.u8()?;
            if a & 0xfe != 0 {
                return Err(Rej("connack-reserved-flags"));
            }
            if ver == 5 {
                let p = props(&mut c, 2)?;
                c.end()?;
                Ok(MqttPacket::ConnAck5(connackv5::MqttConnAck { session_present: a == 1, reason_code: rc, properties: if p.is_empty() { None } else { Some(p) } }))
            } else {
                c.end()?;
                if rc > 5 {
                    return Err(Rej("connack-return-code*"));
                }
                Ok(MqttPacket::ConnAck3(connackv3::MqttConnAck { session_present: a == 1, return_code: rc }))
            }
        }
        3 => {
            let (dup, qos, retain) = (flags & 8 != 0, (flags >> 1) & 3, flags & 1 != 0);
            if qos == 3 {
                return Err(Rej("publish-qos-3"));
            }
            if dup && qos == 0 {
                return Err(Rej(if ver == 5 { "publish-dup-qos0" } else { "publish-dup-qos0-v3*" }));
            }
            let topic = c.str()?;
            if topic.contains(['#', '+']) {
                return Err(Rej(if ver == 5 { "publish-topic-wildcard" } else { "publish-topic-wildcard-v3*" }));
            }
            let pid = if qos > 0 { Some(c.u16()?) } else { None };
            if pid == Some(0) {
                return Err(Rej("publish-packet-id-0*"));
            }
            if ver == 5 {
                let p = props(&mut c, 3)?;
                if topic.is_empty() && !p.iter().any(|x| matches!(x, Property::TopicAlias(_))) {
                    return Err(Rej("publish-empty-topic*"));
                }
                let payload = c.rest();
                Ok(MqttPacket::Publish5(publishv5::MqttPublish { topic_name: topic, qos, dup, retain, packet_id: pid, payload, properties: p }))
            } else {
                if topic.is_empty() {
                    return Err(Rej("publish-empty-topic*"));
                }
                let payload = c.rest();
                Ok(MqttPacket::Publish3(publishv3::MqttPublish { dup, qos, retain, topic_name: topic, message_id: pid, payload }))
            }
        }
        4..=7 => {
            let id = c.u16()?;
            if ver == 5 {
                let rc = if size > 2 { c.u8()? } else { 0 };
                let p = if size > 3 { props(&mut c, ptype)? } else { vec![] };
                c.end()?;
                if id == 0 {
                    return Err(Rej("ack-packet-id-0*"));
                }
                Ok(match ptype {
                    4 => MqttPacket::PubAck5(pubackv5::MqttPubAck { packet_id: id, reason_code: rc, properties: p }),
                    5 => MqttPacket::PubRec5(pubrecv5::MqttPubRec { packet_id: id, reason_code: rc, properties: p }),
                    6 => MqttPacket::PubRel5(pubrelv5::MqttPubRel { packet_id: id, reason_code: rc, properties: p }),
                    _ => MqttPacket::PubComp5(pubcompv5::MqttPubComp { packet_id: id, reason_code: rc, properties: p }),
                })
            } else {
                c.end()?;
                if id == 0 {
                    return Err(Rej("ack-packet-id-0*"));
                }
                Ok(match ptype {
                    4 => MqttPacket::PubAck3(pubackv3::MqttPubAck { message_id: id }),
                    5 => MqttPacket::PubRec3(pubrecv3::MqttPubRec { message_id: id }),
                    6 => MqttPacket::PubRel3(pubrelv3::MqttPubRel { message_id: id }),
                    _ => MqttPacket::PubComp3(pubcompv3::MqttPubComp { message_id: id }),
                })
            }
        }
        8 => {
            let id = c.u16()?;
            if id == 0 {
                return Err(Rej(if ver == 5 { "packet-id-0" } else { "packet-id-0-v3*" }));
            }
            let p = if ver == 5 { props(&mut c, 8)? } else { vec![] };
            let mut s5 = vec![];
            let mut s3 = vec![];
            while c.left() > 0 {
                let f = c.str()?;
                if ver == 5 {
                    filter_ok(&f)?;
                    share_ok(&f)?;
                }
                let o = c.u8()?;
                if ver == 5 {
                    if o & 0xc0 != 0 {
                        return Err(Rej("subscribe-option-reserved"));
                    }
                    if o & 4 != 0 && f.starts_with("$share/") {
                        return Err(Rej("no-local-on-shared"));
                    }
                    if o & 3 == 3 {
                        return Err(Rej("subscribe-qos-3"));
                    }
                    if o & 0x30 == 0x30 {
                        return Err(Rej("retain-handling-3"));
                    }
                    s5.push(subscribev5::TopicSubscription { topic_filter: f, qos: o & 3, no_local: o & 4 != 0, retain_as_published: o & 8 != 0, retain_handling: o >> 4 });
                } else {
                    if o > 2 {
                        return Err(Rej("subscribe-qos-v3"));
                    }
                    if filter_ok(&f).is_err() {
                        return Err(Rej("filter-v3*"));
                    }
                    s3.push(subscribev3::SubscriptionTopic { topic_filter: f, qos: o });
                }
            }
            if s5.is_empty() && s3.is_empty() {
                return Err(Rej("empty-subscribe"));
            }
            Ok(if ver == 5 {
                MqttPacket::Subscribe5(subscribev5::MqttSubscribe { packet_id: id, subscriptions: s5, properties: p })
            } else {
                MqttPacket::Subscribe3(subscribev3::MqttSubscribe { message_id: id, subscriptions: s3 })
            })
        }
        9 => {
            let id = c.u16()?;
            if id == 0 {
                return Err(Rej(if ver == 5 { "packet-id-0" } else { "packet-id-0-v3*" }));
            }
            let p = if ver == 5 { props(&mut c, 9)? } else { vec![] };
            let rcs = c.rest();
            if rcs.is_empty() {
                return Err(Rej(if ver == 5 { "empty-suback" } else { "empty-suback-v3*" }));
            }
            Ok(if ver == 5 {
                MqttPacket::SubAck5(subackv5::MqttSubAck { packet_id: id, reason_codes: rcs, properties: p })
            } else {
                if rcs.iter().any(|r| ![0, 1, 2, 0x80].contains(r)) {
                    return Err(Rej("suback-return-code-v3*"));
                }
                MqttPacket::SubAck3(subackv3::MqttSubAck { message_id: id, return_codes: rcs })
            })
        }
        10 => {
            let id = c.u16()?;
            if id == 0 {
                return Err(Rej(if ver == 5 { "packet-id-0" } else { "packet-id-0-v3*" }));
            }
            let p = if ver == 5 { props(&mut c, 10)? } else { vec![] };
            let mut fs = vec![];
            while c.left() > 0 {
                fs.push(c.str()?);
            }
            if fs.is_empty() {
                return Err(Rej(if ver == 5 { "empty-unsubscribe" } else { "empty-unsubscribe-v3*" }));
            }
            if fs.iter().any(|f| filter_ok(f).is_err()) {
                return Err(Rej("unsubscribe-filter*"));
            }
            Ok(if ver == 5 {
                MqttPacket::Unsubscribe5(unsubscribev5::MqttUnsubscribe { packet_id: id, topic_filters: fs, properties: p })
            } else {
                MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe { message_id: id, topic_filters: fs })
            })
        }
        11 => {
            let id = c.u16()?;
            if id == 0 {
                return Err(Rej(if ver == 5 { "packet-id-0" } else { "packet-id-0-v3*" }));
            }
            if ver == 5 {
                let p = props(&mut c, 11)?;
                let rcs = c.rest();
                if rcs.is_empty() {
                    return Err(Rej("empty-unsuback"));
                }
                Ok(MqttPacket::UnsubAck5(unsubackv5::MqttUnsubAck { packet_id: id, reason_codes: rcs, properties: p }))
            } else {
                c.end()?;
                Ok(MqttPacket::UnsubAck3(unsubackv3::MqttUnsubAck { message_id: id }))
            }
        }
        12 | 13 => {
            if size != 0 {
                return Err(Rej("ping-length"));
            }
            Ok(match (ver, ptype) {
                (5, 12) => MqttPacket::PingReq5(pingreqv5::MqttPingReq::new()),
                (5, _) => MqttPacket::PingResp5(pingrespv5::MqttPingResp::new()),
                (_, 12) => MqttPacket::PingReq3(pingreqv3::MqttPingReq::new()),
                _ => MqttPacket::PingResp3(pingrespv3::MqttPingResp::new()),
            })
        }
        14 => {
            if ver == 5 {
                let rc = if size > 0 { c.u8()? } else { 0 };
                let p = if size > 1 { props(&mut c, 14)? } else { vec![] };
                c.end()?;
                Ok(MqttPacket::Disconnect5(disconnectv5::MqttDisconnect { reason_code: rc, properties: p }))
            } else {
                if size != 0 {
                    return Err(Rej("disconnect-length-v3"));
                }
                Ok(MqttPacket::Disconnect3(disconnectv3::MqttDisconnect::new()))
            }
        }
        _ => {
            if size == 0 {
                return Err(Rej("auth-without-reason")); // documented by the SDK as rejected
            }
            let rc = c.u8()?;
            let p = if size > 1 { props(&mut c, 15)? } else { return Err(Rej("auth-short*")) };
            c.end()?;
            Ok(MqttPacket::Auth(authv5::MqttAuth { reason_code: rc, properties: p }))
        }
    }
}

/// First frame of a buffer: what a correct strict decoder must answer.
#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Incomplete,
    Packet(MqttPacket, usize),
    Reject(&'static str, Option<usize>),
}
pub fn want(b: &[u8], ver: u8) -> Want {
    match framing(b) {
        Framing::Incomplete => Want::Incomplete,
        Framing::Bad(r) => Want::Reject(r, None),
        Framing::Frame { hdr, total } => match refdec(&b[..total], hdr, ver) {
            Ok(p) => Want::Packet(p, total),
            Err(Rej(r)) => Want::Reject(r, Some(total)),
        },
    }
}

// ------------------------------------------------------------------ encoder
pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 128;
        }
        v.push(b);
        if n == 0 {
            return v;
        }
    }
}
fn s(o: &mut Vec<u8>, x: &str) {
    b(o, x.as_bytes())
}
fn b(o: &mut Vec<u8>, x: &[u8]) {
    assert!(x.len() <= 65535);
    o.extend((x.len() as u16).to_be_bytes());
    o.extend(x);
}
pub fn enc_prop(o: &mut Vec<u8>, p: &Property) {
    use Property::*;
    o.push(prop_id(p));
    match p {
        PayloadFormatIndicator(x) | RequestProblemInformation(x) | RequestResponseInformation(x) | MaximumQoS(x) | RetainAvailable(x) | WildcardSubscriptionAvailable(x) | SubscriptionIdentifierAvailable(x) | SharedSubscriptionAvailable(x) => o.push(*x),
        MessageExpiryInterval(x) | SessionExpiryInterval(x) | WillDelayInterval(x) | MaximumPacketSize(x) => o.extend(x.to_be_bytes()),
        ContentType(x) | ResponseTopic(x) | AssignedClientIdentifier(x) | AuthenticationMethod(x) | ResponseInformation(x) | ServerReference(x) | ReasonString(x) => s(o, x),
        CorrelationData(x) | AuthenticationData(x) => b(o, x),
        SubscriptionIdentifier(x) => o.extend(vbi(*x as usize)),
        ServerKeepAlive(x) | ReceiveMaximum(x) | TopicAliasMaximum(x) | TopicAlias(x) => o.extend(x.to_be_bytes()),
        UserProperty(k, v) => {
            s(o, k);
            s(o, v)
        }
    }
}
fn pr(o: &mut Vec<u8>, ps: &[Property]) {
    let mut t = vec![];
    for p in ps {
        enc_prop(&mut t, p);
    }
    o.extend(vbi(t.len()));
    o.extend(t);
}
pub fn will_props(w: &WillProperties) -> Vec<Property> {
    let mut v = vec![];
    if let Some(x) = w.will_delay_interval {
        v.push(Property::WillDelayInterval(x));
    }
    if let Some(x) = w.payload_format_indicator {
        v.push(Property::PayloadFormatIndicator(x));
    }
    if let Some(x) = w.message_expiry_interval {
        v.push(Property::MessageExpiryInterval(x));
    }
    if let Some(x) = &w.content_type {
        v.push(Property::ContentType(x.clone()));
    }
    if let Some(x) = &w.response_topic {
        v.push(Property::ResponseTopic(x.clone()));
    }
    if let Some(x) = &w.correlation_data {
        v.push(Property::CorrelationData(x.clone()));
    }
    v.extend(w.user_properties.iter().cloned());
    v
}

/// Canonical encoding (short forms where the specification has them).
pub fn refenc(p: &MqttPacket) -> Vec<u8> {
    let mut o = vec![];
    let first = match p {
        MqttPacket::Connect5(c) => {
            s(&mut o, "MQTT");
            o.push(5);
            let mut f = (c.clean_start as u8) << 1;
            if let Some(w) = &c.will {
                f |= 4 | w.will_qos << 3 | (w.will_retain as u8) << 5;
            }
            f |= (c.username.is_some() as u8) << 7 | (c.password.is_some() as u8) << 6;
            o.push(f);
            o.extend(c.keep_alive.to_be_bytes());
            pr(&mut o, &c.properties);
            s(&mut o, &c.client_id);
            if let Some(w) = &c.will {
                pr(&mut o, &will_props(&w.properties));
                s(&mut o, &w.will_topic);
                b(&mut o, &w.will_message);
            }
            if let Some(u) = &c.username {
                s(&mut o, u);
            }
            if let Some(u) = &c.password {
                b(&mut o, u);
            }
            0x10
        }
        MqttPacket::Connect3(c) => {
            s(&mut o, "MQTT");
            o.push(4);
            let mut f = (c.clean_session as u8) << 1;
            if let Some(w) = &c.will {
                f |= 4 | w.qos << 3 | (w.retain as u8) << 5;
            }
            f |= (c.username.is_some() as u8) << 7 | (c.password.is_some() as u8) << 6;
            o.push(f);
            o.extend(c.keep_alive.to_be_bytes());
            s(&mut o, &c.client_id);
            if let Some(w) = &c.will {
                s(&mut o, &w.topic);
                b(&mut o, &w.message);
            }
            if let Some(u) = &c.username {
                s(&mut o, u);
            }
            if let Some(u) = &c.password {
                b(&mut o, u);
            }
            0x10
        }
        MqttPacket::ConnAck5(c) => {
            o.push(c.session_present as u8);
            o.push(c.reason_code);
            pr(&mut o, c.properties.as_deref().unwrap_or(&[]));
            0x20
        }
        MqttPacket::ConnAck3(c) => {
            o.push(c.session_present as u8);
            o.push(c.return_code);
            0x20
        }
        MqttPacket::Publish5(c) => {
            s(&mut o, &c.topic_name);
            if c.qos > 0 {
                o.extend(c.packet_id.unwrap().to_be_bytes());
            }
            pr(&mut o, &c.properties);
            o.extend(&c.payload);
            0x30 | (c.dup as u8) << 3 | c.qos << 1 | c.retain as u8
        }
        MqttPacket::Publish3(c) => {
            s(&mut o, &c.topic_name);
            if c.qos > 0 {
                o.extend(c.message_id.unwrap().to_be_bytes());
            }
            o.extend(&c.payload);
            0x30 | (c.dup as u8) << 3 | c.qos << 1 | c.retain as u8
        }
        MqttPacket::PubAck5(c) => ack(&mut o, 0x40, c.packet_id, c.reason_code, &c.properties),
        MqttPacket::PubRec5(c) => ack(&mut o, 0x50, c.packet_id, c.reason_code, &c.properties),
        MqttPacket::PubRel5(c) => ack(&mut o, 0x62, c.packet_id, c.reason_code, &c.properties),
        MqttPacket::PubComp5(c) => ack(&mut o, 0x70, c.packet_id, c.reason_code, &c.properties),
        MqttPacket::PubAck3(c) => id(&mut o, 0x40, c.message_id),
        MqttPacket::PubRec3(c) => id(&mut o, 0x50, c.message_id),
        MqttPacket::PubRel3(c) => id(&mut o, 0x62, c.message_id),
        MqttPacket::PubComp3(c) => id(&mut o, 0x70, c.message_id),
        MqttPacket::Subscribe5(c) => {
            o.extend(c.packet_id.to_be_bytes());
            pr(&mut o, &c.properties);
            for t in &c.subscriptions {
                s(&mut o, &t.topic_filter);
                o.push(t.qos | (t.no_local as u8) << 2 | (t.retain_as_published as u8) << 3 | t.retain_handling << 4);
            }
            0x82
        }
        MqttPacket::Subscribe3(c) => {
            o.extend(c.message_id.to_be_bytes());
            for t in &c.subscriptions {
                s(&mut o, &t.topic_filter);
                o.push(t.qos);
            }
            0x82
        }
        MqttPacket::SubAck5(c) => {
            o.extend(c.packet_id.to_be_bytes());
            pr(&mut o, &c.properties);
            o.extend(&c.reason_codes);
            0x90
        }
        MqttPacket::SubAck3(c) => {
            o.extend(c.message_id.to_be_bytes());
            o.extend(&c.return_codes);
            0x90
        }
        MqttPacket::Unsubscribe5(c) => {
            o.extend(c.packet_id.to_be_bytes());
            pr(&mut o, &c.properties);
            for t in &c.topic_filters {
                s(&mut o, t);
            }
            0xa2
        }
        MqttPacket::Unsubscribe3(c) => {
            o.extend(c.message_id.to_be_bytes());
            for t in &c.topic_filters {
                s(&mut o, t);
            }
            0xa2
        }
        MqttPacket::UnsubAck5(c) => {
            o.extend(c.packet_id.to_be_bytes());
            pr(&mut o, &c.properties);
            o.extend(&c.reason_codes);
            0xb0
        }
        MqttPacket::UnsubAck3(c) => id(&mut o, 0xb0, c.message_id),
        MqttPacket::PingReq5(_) | MqttPacket::PingReq3(_) => 0xc0,
        MqttPacket::PingResp5(_) | MqttPacket::PingResp3(_) => 0xd0,
        MqttPacket::Disconnect5(c) => {
            if c.reason_code != 0 || !c.properties.is_empty() {
                o.push(c.reason_code);
                pr(&mut o, &c.properties);
            }
            0xe0
        }
        MqttPacket::Disconnect3(_) => 0xe0,
        MqttPacket::Auth(c) => {
            o.push(c.reason_code);
            pr(&mut o, &c.properties);
            0xf0
        }
    };
    frame(first, &o)
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    v.extend(vbi(body.len()));
    v.extend(body);
    v
}
fn ack(o: &mut Vec<u8>, first: u8, pid: u16, rc: u8, ps: &[Property]) -> u8 {
    o.extend(pid.to_be_bytes());
    if rc != 0 || !ps.is_empty() {
        o.push(rc);
        pr(o, ps);
    }
    first
}
fn id(o: &mut Vec<u8>, first: u8, pid: u16) -> u8 {
    o.extend(pid.to_be_bytes());
    first
}

/// Reference for the variable header alone: its fields and where the payload starts.
pub fn refhdr(f: &[u8], hdr: usize, ver: u8) -> R<(flowsdk::mqtt_serde::parser::leveled::VariableHeader, usize)> {
    use flowsdk::mqtt_serde::parser::leveled::VariableHeader as V;
    let mut c = Cur { b: f, i: hdr };
    let c = &mut c;
    let t = f[0] >> 4;
    let (dup, qos, retain) = (f[0] & 8 != 0, (f[0] >> 1) & 3, f[0] & 1 != 0);
    if t == 0 || t == 15 && ver != 5 {
        return Err(Rej("packet-type"));
    }
    let v = match (ver, t) {
        (5, 1) => {
            let (n, pv, fl, ka) = (c.str()?, c.u8()?, c.u8()?, c.u16()?);
            V::ConnectV5 { protocol_name: n, protocol_version: pv, clean_start: fl & 2 != 0, keep_alive: ka, connect_flags: fl, properties: props_raw(c)? }
        }
        (_, 1) => {
            let (n, pv, fl, ka) = (c.str()?, c.u8()?, c.u8()?, c.u16()?);
            V::ConnectV3 { protocol_name: n, protocol_version: pv, clean_session: fl & 2 != 0, keep_alive: ka, connect_flags: fl }
        }
        (5, 2) => {
            let (a, r) = (c.u8()?, c.u8()?);
            let p = props_raw(c)?;
            V::ConnAckV5 { session_present: a & 1 != 0, reason_code: r, properties: if p.is_empty() { None } else { Some(p) } }
        }
        (_, 2) => {
            let (a, r) = (c.u8()?, c.u8()?);
            V::ConnAckV3 { session_present: a & 1 != 0, return_code: r }
        }
        (5, 3) => V::PublishV5 { topic_name: c.str()?, qos, dup, retain, packet_id: if qos > 0 { Some(c.u16()?) } else { None }, properties: props_raw(c)? },
        (_, 3) => V::PublishV3 { topic_name: c.str()?, qos, dup, retain, message_id: if qos > 0 { Some(c.u16()?) } else { None } },
        (5, 4..=7) => {
            let packet_id = c.u16()?;
            let reason_code = if c.left() > 0 { c.u8()? } else { 0 };
            let properties = if c.left() > 0 { props_raw(c)? } else { vec![] };
            match t {
                4 => V::PubAckV5 { packet_id, reason_code, properties },
                5 => V::PubRecV5 { packet_id, reason_code, properties },
                6 => V::PubRelV5 { packet_id, reason_code, properties },
                _ => V::PubCompV5 { packet_id, reason_code, properties },
            }
        }
        (5, 8) => V::SubscribeV5 { packet_id: c.u16()?, properties: props_raw(c)? },
        (5, 9) => V::SubAckV5 { packet_id: c.u16()?, properties: props_raw(c)? },
        (5, 10) => V::UnsubscribeV5 { packet_id: c.u16()?, properties: props_raw(c)? },
        (5, 11) => V::UnsubAckV5 { packet_id: c.u16()?, properties: props_raw(c)? },
        (_, 4..=11) => V::PacketIdOnlyV3 { message_id: c.u16()? },
        (5, 14) | (5, 15) => {
            let reason_code = if c.left() > 0 { c.u8()? } else { 0 };
            let properties = if c.left() > 0 { props_raw(c)? } else { vec![] };
            if t == 14 { V::DisconnectV5 { reason_code, properties } } else { V::AuthV5 { reason_code, properties } }
        }
        _ => V::Empty,
    };
    Ok((v, c.i))
}
