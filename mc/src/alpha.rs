//! Packet alphabets: every type x flags x field boundaries x property sets.
use crate::refcodec::{allowed, prop_id};
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::mqttv3::connectv3::Will as Will3;
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property::{self, *};
use flowsdk::mqtt_serde::mqttv5::will::{Will, WillProperties};
use flowsdk::mqtt_serde::mqttv5::*;

pub fn long(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}
pub fn blob(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + 1) as u8).collect()
}
fn strs(big: bool) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "a".into(), "é€😀".into(), long(127), long(128)];
    if big {
        v.push(long(65535));
    }
    v
}
fn bins(big: bool) -> Vec<Vec<u8>> {
    let mut v = vec![vec![], vec![0], vec![0xff, 0x00], blob(127), blob(128), blob(256)];
    if big {
        v.push(blob(65535));
    }
    v
}
const U16: [u16; 6] = [1, 127, 128, 255, 256, 65535];
const U32: [u32; 6] = [0, 1, 255, 65535, 65536, u32::MAX];
const VBI: [u32; 8] = [1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455];

/// Every property kind with one plain value.
pub fn one_of_each() -> Vec<Property> {
    vec![
        PayloadFormatIndicator(1),
        MessageExpiryInterval(0x01020304),
        ContentType("ct".into()),
        ResponseTopic("r/t".into()),
        CorrelationData(vec![1, 2, 3]),
        SubscriptionIdentifier(300),
        SessionExpiryInterval(0x05060708),
        AssignedClientIdentifier("acid".into()),
        ServerKeepAlive(0x1234),
        AuthenticationMethod("am".into()),
        AuthenticationData(vec![9, 8]),
        RequestProblemInformation(1),
        WillDelayInterval(0x0a0b0c0d),
        RequestResponseInformation(1),
        ResponseInformation("ri".into()),
        ServerReference("sr".into()),
        ReasonString("rs".into()),
        ReceiveMaximum(0x0102),
        TopicAliasMaximum(0x0304),
        TopicAlias(0x0506),
        MaximumQoS(1),
        RetainAvailable(1),
        UserProperty("k".into(), "vv".into()),
        MaximumPacketSize(0x11223344),
        WildcardSubscriptionAvailable(1),
        SubscriptionIdentifierAvailable(1),
        SharedSubscriptionAvailable(1),
    ]
}
fn boundary(p: &Property, big: bool) -> Vec<Property> {
    let b01 = |f: fn(u8) -> Property| vec![f(0), f(1)];
    let f16 = |f: fn(u16) -> Property| U16.iter().map(|x| f(*x)).collect::<Vec<_>>();
    let f32_ = |f: fn(u32) -> Property| U32.iter().map(|x| f(*x)).collect::<Vec<_>>();
    let fs = |f: fn(String) -> Property| strs(big).into_iter().map(f).collect::<Vec<_>>();
    let fb = |f: fn(Vec<u8>) -> Property| bins(big).into_iter().map(f).collect::<Vec<_>>();
    match p {
        PayloadFormatIndicator(_) => b01(PayloadFormatIndicator),
        MessageExpiryInterval(_) => f32_(MessageExpiryInterval),
        ContentType(_) => fs(ContentType),
        ResponseTopic(_) => strs(big).into_iter().filter(|s| !s.is_empty()).map(ResponseTopic).collect(),
        CorrelationData(_) => fb(CorrelationData),
        SubscriptionIdentifier(_) => VBI.iter().map(|x| SubscriptionIdentifier(*x)).collect(),
        SessionExpiryInterval(_) => f32_(SessionExpiryInterval),
        AssignedClientIdentifier(_) => fs(AssignedClientIdentifier),
        ServerKeepAlive(_) => f16(ServerKeepAlive),
        AuthenticationMethod(_) => fs(AuthenticationMethod),
        AuthenticationData(_) => fb(AuthenticationData),
        RequestProblemInformation(_) => b01(RequestProblemInformation),
        WillDelayInterval(_) => f32_(WillDelayInterval),
        RequestResponseInformation(_) => b01(RequestResponseInformation),
        ResponseInformation(_) => fs(ResponseInformation),
        ServerReference(_) => fs(ServerReference),
        ReasonString(_) => fs(ReasonString),
        ReceiveMaximum(_) => f16(ReceiveMaximum),
        TopicAliasMaximum(_) => f16(TopicAliasMaximum),
        TopicAlias(_) => f16(TopicAlias),
        MaximumQoS(_) => b01(MaximumQoS),
        RetainAvailable(_) => b01(RetainAvailable),
        UserProperty(_, _) => strs(big).into_iter().flat_map(|s| [UserProperty(s.clone(), "".into()), UserProperty("x".into(), s)]).collect(),
        MaximumPacketSize(_) => U32.iter().filter(|x| **x > 0).map(|x| MaximumPacketSize(*x)).collect(),
        WildcardSubscriptionAvailable(_) => b01(WildcardSubscriptionAvailable),
        SubscriptionIdentifierAvailable(_) => b01(SubscriptionIdentifierAvailable),
        SharedSubscriptionAvailable(_) => b01(SharedSubscriptionAvailable),
    }
}
/// Property lists for a packet type: none, each kind at each boundary, all ordered pairs, all kinds, length boundaries.
pub fn prop_lists(ptype: u8, big: bool) -> Vec<Vec<Property>> {
    let kinds: Vec<Property> = one_of_each().into_iter().filter(|p| allowed(ptype).contains(&prop_id(p))).collect();
    let mut v = vec![vec![]];
    for k in &kinds {
        for b in boundary(k, big) {
            v.push(vec![b]);
        }
    }
    for a in &kinds {
        for b in &kinds {
            if prop_id(a) != prop_id(b) || prop_id(a) == 0x26 {
                v.push(vec![a.clone(), b.clone()]);
            }
        }
    }
    v.push(kinds.clone());
    v.push(kinds.iter().rev().cloned().collect());
    if allowed(ptype).contains(&0x26) {
        // total property length exactly at the boundaries of its length field: id + 2+1 + 2+n
        for total in [127usize, 128, 16383, 16384] {
            v.push(vec![UserProperty("k".into(), long(total - 6))]);
        }
        v.push((0..5).map(|i| UserProperty(format!("k{}", i % 2), format!("v{}", i))).collect());
    }
    v
}
pub fn small_props(ptype: u8) -> Vec<Vec<Property>> {
    let kinds: Vec<Property> = one_of_each().into_iter().filter(|p| allowed(ptype).contains(&prop_id(p))).collect();
    vec![vec![], vec![kinds[0].clone()], kinds]
}

fn wills5(big: bool) -> Vec<Will> {
    let mut v = vec![];
    let set = |ps: &[Property]| {
        let mut w = WillProperties::default();
        for p in ps {
            match p.clone() {
                WillDelayInterval(x) => w.will_delay_interval = Some(x),
                PayloadFormatIndicator(x) => w.payload_format_indicator = Some(x),
                MessageExpiryInterval(x) => w.message_expiry_interval = Some(x),
                ContentType(x) => w.content_type = Some(x),
                ResponseTopic(x) => w.response_topic = Some(x),
                CorrelationData(x) => w.correlation_data = Some(x),
                p => w.user_properties.push(p),
            }
        }
        w
    };
    for q in 0..3 {
        for r in [false, true] {
            for (t, m) in [("w", vec![1u8, 2]), ("w/é", vec![]), ("w", blob(300))] {
                v.push(Will { will_qos: q, will_retain: r, will_topic: t.into(), will_message: m, properties: WillProperties::default() });
            }
        }
    }
    for ps in prop_lists(0, big) {
        v.push(Will { will_qos: 1, will_retain: true, will_topic: "w".into(), will_message: vec![7], properties: set(&ps) });
    }
    if big {
        v.push(Will { will_qos: 2, will_retain: false, will_topic: long(65535), will_message: blob(65535), properties: Default::default() });
    }
    v
}

pub fn packets5(big: bool) -> Vec<P> {
    let mut v = vec![];
    // CONNECT
    let base = |cid: &str, u: Option<&str>, p: Option<Vec<u8>>, w: Option<Will>, ka, cs, pr: Vec<Property>| {
        P::Connect5(connectv5::MqttConnect::new(cid.into(), u.map(|x| x.into()), p, w, ka, cs, pr))
    };
    let w0 = || Will { will_qos: 1, will_retain: false, will_topic: "w".into(), will_message: vec![5], properties: Default::default() };
    for cid in ["", "c", "client-é"] {
        for u in [None, Some("u"), Some(""), Some("üser")] {
            for p in [None, Some(vec![]), Some(vec![0u8, 255]), Some(blob(300))] {
                for w in [None, Some(w0())] {
                    for ka in [0u16, 1, 256, 65535] {
                        for cs in [false, true] {
                            for pr in small_props(1) {
                                v.push(base(cid, u, p.clone(), w.clone(), ka, cs, pr));
                            }
                        }
                    }
                }
            }
        }
    }
    for w in wills5(big) {
        v.push(base("c", None, None, Some(w.clone()), 60, true, vec![]));
        v.push(base("c", Some("u"), Some(vec![1]), Some(w), 60, false, vec![]));
    }
    for pr in prop_lists(1, big) {
        v.push(base("c", None, None, None, 60, true, pr.clone()));
        v.push(base("c", Some("u"), Some(vec![1]), Some(w0()), 60, true, pr));
    }
    for s in strs(big) {
        v.push(base(&s, None, None, None, 1, true, vec![]));
        v.push(base("c", Some(&s), Some(s.as_bytes().to_vec()), None, 1, true, vec![]));
    }
    // CONNACK
    for sp in [false, true] {
        for rc in 0..=255u8 {
            v.push(P::ConnAck5(connackv5::MqttConnAck::new(sp, rc, None)));
        }
        for pr in prop_lists(2, big) {
            v.push(P::ConnAck5(connackv5::MqttConnAck::new(sp, 0, if pr.is_empty() { None } else { Some(pr) })));
        }
    }
    // PUBLISH
    for q in 0..3u8 {
        for dup in [false, true] {
            if q == 0 && dup {
                continue;
            }
            for ret in [false, true] {
                let ids: Vec<Option<u16>> = if q == 0 { vec![None] } else { U16.iter().map(|x| Some(*x)).collect() };
                for id in ids {
                    for t in ["t", "a/é/€", "/", "$SYS/x"] {
                        for pl in [vec![], vec![0u8], vec![0xff; 3], blob(120)] {
                            for pr in small_props(3) {
                                v.push(P::Publish5(publishv5::MqttPublish::new_with_prop(q, t.into(), id, pl.clone(), ret, dup, pr)));
                            }
                        }
                    }
                }
            }
        }
        let id = if q == 0 { None } else { Some(7) };
        for pr in prop_lists(3, big) {
            v.push(P::Publish5(publishv5::MqttPublish::new_with_prop(q, "t".into(), id, vec![1, 2], false, false, pr)));
        }
        v.push(P::Publish5(publishv5::MqttPublish::new_with_prop(q, "".into(), id, vec![1, 2], false, false, vec![TopicAlias(3)])));
        v.push(P::Publish5(publishv5::MqttPublish::new_with_prop(q, "t".into(), id, vec![1, 2], false, false, vec![SubscriptionIdentifier(1), SubscriptionIdentifier(200)])));
        // remaining-length boundaries: 2+1 (topic) + 0/2 (id) + 1 (props) + payload
        let hdr = 2 + 1 + if q > 0 { 2 } else { 0 } + 1;
        let mut rls = vec![126usize, 127, 128, 129, 16382, 16383, 16384, 16385];
        rls.extend([2097151, 2097152]);
        for rl in rls {
            v.push(P::Publish5(publishv5::MqttPublish::new(q, "t".into(), id, blob(rl - hdr), false, false)));
        }
        for s in strs(big).into_iter().filter(|s| !s.is_empty()) {
            v.push(P::Publish5(publishv5::MqttPublish::new(q, s, id, vec![1], true, false)));
        }
    }
    // acks
    for ty in 4..=7u8 {
        let mk = |id: u16, rc: u8, pr: Vec<Property>| match ty {
            4 => P::PubAck5(pubackv5::MqttPubAck::new(id, rc, pr)),
            5 => P::PubRec5(pubrecv5::MqttPubRec::new(id, rc, pr)),
            6 => P::PubRel5(pubrelv5::MqttPubRel::new(id, rc, pr)),
            _ => P::PubComp5(pubcompv5::MqttPubComp::new(id, rc, pr)),
        };
        for id in U16 {
            for rc in 0..=255u8 {
                v.push(mk(id, rc, vec![]));
            }
            for rc in [0, 0x10, 0x92] {
                for pr in small_props(ty) {
                    v.push(mk(id, rc, pr));
                }
            }
        }
        for rc in [0, 0x80] {
            for pr in prop_lists(ty, big) {
                v.push(mk(0x0203, rc, pr));
            }
        }
    }
    // SUBSCRIBE
    let sub = |f: &str, o: u8| subscribev5::TopicSubscription { topic_filter: f.into(), qos: o & 3, no_local: o & 4 != 0, retain_as_published: o & 8 != 0, retain_handling: o >> 4 };
    let opts: Vec<u8> = (0..64u8).filter(|o| o & 3 != 3 && o & 0x30 != 0x30).collect();
    for id in U16 {
        for o in &opts {
            for f in ["t", "#", "+", "a/+/b", "a/#", "+/+", "/", "a//b", "é"] {
                v.push(P::Subscribe5(subscribev5::MqttSubscribe::new(id, vec![sub(f, *o)], vec![])));
            }
            if o & 4 == 0 {
                v.push(P::Subscribe5(subscribev5::MqttSubscribe::new(id, vec![sub("$share/g/a/#", *o)], vec![])));
            }
        }
    }
    for o1 in &opts {
        for o2 in [0u8, 1, 0x2e] {
            v.push(P::Subscribe5(subscribev5::MqttSubscribe::new(9, vec![sub("a", *o1), sub("b/#", o2), sub("c", 2)], vec![SubscriptionIdentifier(5)])));
        }
    }
    for pr in prop_lists(8, big) {
        v.push(P::Subscribe5(subscribev5::MqttSubscribe::new(1, vec![sub("a", 1)], pr)));
    }
    for n in [10usize, 40, 127] {
        v.push(P::Subscribe5(subscribev5::MqttSubscribe::new(1, (0..n).map(|i| sub(&format!("t{}", i), (i % 3) as u8)).collect(), vec![])));
        v.push(P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(1, (0..n).map(|i| format!("t{}", i)).collect(), vec![])));
    }
    for s in strs(big).into_iter().filter(|s| !s.is_empty()) {
        v.push(P::Subscribe5(subscribev5::MqttSubscribe::new(1, vec![sub(&s, 1), sub("z", 0)], vec![])));
        v.push(P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(1, vec![s, "z".into()], vec![])));
    }
    // SUBACK / UNSUBACK / UNSUBSCRIBE
    for id in U16 {
        for rc in 0..=255u8 {
            v.push(P::SubAck5(subackv5::MqttSubAck::new(id, vec![rc], vec![])));
            v.push(P::UnsubAck5(unsubackv5::MqttUnsubAck::new(id, vec![rc], vec![])));
        }
        v.push(P::SubAck5(subackv5::MqttSubAck::new(id, vec![0, 1, 2, 0x80], small_props(9)[2].clone())));
        v.push(P::UnsubAck5(unsubackv5::MqttUnsubAck::new(id, vec![0, 0x11, 0x80], small_props(11)[2].clone())));
        for fs in [vec!["a"], vec!["a", "b/#"], vec!["+", "é", "$share/g/x"]] {
            for pr in small_props(10) {
                v.push(P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(id, fs.iter().map(|x| x.to_string()).collect(), pr)));
            }
        }
    }
    for pr in prop_lists(9, big) {
        v.push(P::SubAck5(subackv5::MqttSubAck::new(3, vec![1, 0x87], pr.clone())));
        v.push(P::UnsubAck5(unsubackv5::MqttUnsubAck::new(3, vec![0, 0x87], pr)));
    }
    for pr in prop_lists(10, big) {
        v.push(P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(1, vec!["a".into()], pr)));
    }
    for n in [124usize, 125, 126, 127, 128, 300, 16380, 16381, 16384] {
        v.push(P::SubAck5(subackv5::MqttSubAck::new(3, (0..n).map(|i| (i % 3) as u8).collect(), vec![])));
        v.push(P::UnsubAck5(unsubackv5::MqttUnsubAck::new(3, vec![0; n], vec![])));
    }
    // PING, DISCONNECT, AUTH
    v.push(P::PingReq5(pingreqv5::MqttPingReq::new()));
    v.push(P::PingResp5(pingrespv5::MqttPingResp::new()));
    for rc in 0..=255u8 {
        v.push(P::Disconnect5(disconnectv5::MqttDisconnect::new(rc, vec![])));
        v.push(P::Auth(authv5::MqttAuth::new(rc, vec![])));
    }
    for rc in [0u8, 4, 0x81] {
        for pr in prop_lists(14, big) {
            v.push(P::Disconnect5(disconnectv5::MqttDisconnect::new(rc, pr)));
        }
    }
    for rc in [0u8, 0x18, 0x19] {
        for pr in prop_lists(15, big) {
            v.push(P::Auth(authv5::MqttAuth::new(rc, pr)));
        }
    }
    v
}

pub fn packets3(big: bool) -> Vec<P> {
    let mut v = vec![];
    let mut wills = vec![None];
    for q in 0..3 {
        for r in [false, true] {
            for (t, m) in [("w", vec![1u8, 2]), ("w/é", vec![]), ("w", blob(300))] {
                wills.push(Some(Will3 { retain: r, qos: q, topic: t.into(), message: m }));
            }
        }
    }
    for cid in ["", "c", "client-é"] {
        for (u, p) in [(None, None), (Some("u"), None), (Some("u"), Some(vec![1u8])), (Some(""), Some(vec![])), (Some("üser"), Some(blob(300)))] {
            for w in &wills {
                for ka in [0u16, 1, 256, 65535] {
                    for cs in [false, true] {
                        if cid.is_empty() && !cs {
                            continue;
                        }
                        let mut c = connectv3::MqttConnect::new(cid.into(), ka, cs);
                        c.username = u.map(|x| x.to_string());
                        c.password = p.clone();
                        c.will = w.clone();
                        v.push(P::Connect3(c));
                    }
                }
            }
        }
    }
    for s in strs(big) {
        let mut c = connectv3::MqttConnect::new(s.clone(), 1, true);
        v.push(P::Connect3(c.clone()));
        c.username = Some(s.clone());
        c.password = Some(s.as_bytes().to_vec());
        if !s.is_empty() {
            c.will = Some(Will3 { retain: true, qos: 2, topic: s.clone(), message: s.as_bytes().to_vec() });
        }
        v.push(P::Connect3(c));
    }
    for sp in [false, true] {
        for rc in 0..6u8 {
            v.push(P::ConnAck3(connackv3::MqttConnAck::new(sp, rc)));
        }
    }
    for q in 0..3u8 {
        for dup in [false, true] {
            if q == 0 && dup {
                continue;
            }
            for ret in [false, true] {
                let ids: Vec<Option<u16>> = if q == 0 { vec![None] } else { U16.iter().map(|x| Some(*x)).collect() };
                for id in ids {
                    for t in ["t", "a/é/€", "/", "$SYS/x"] {
                        for pl in [vec![], vec![0u8], vec![0xff; 3], blob(120)] {
                            v.push(P::Publish3(publishv3::MqttPublish::new(t.into(), q, pl, id, ret, dup)));
                        }
                    }
                }
            }
        }
        let id = if q == 0 { None } else { Some(7) };
        let hdr = 2 + 1 + if q > 0 { 2 } else { 0 };
        for rl in [126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 2097151, 2097152] {
            v.push(P::Publish3(publishv3::MqttPublish::new("t".into(), q, blob(rl - hdr), id, false, false)));
        }
        for s in strs(big).into_iter().filter(|s| !s.is_empty()) {
            v.push(P::Publish3(publishv3::MqttPublish::new(s, q, vec![1], id, true, false)));
        }
    }
    let mut ids: Vec<u16> = U16.to_vec();
    ids.extend([2, 0x0100, 0x7fff, 0x8000, 0xfffe]);
    for id in ids {
        v.push(P::PubAck3(pubackv3::MqttPubAck::new(id)));
        v.push(P::PubRec3(pubrecv3::MqttPubRec::new(id)));
        v.push(P::PubRel3(pubrelv3::MqttPubRel::new(id)));
        v.push(P::PubComp3(pubcompv3::MqttPubComp::new(id)));
        v.push(P::UnsubAck3(unsubackv3::MqttUnsubAck::new(id)));
        for q in 0..3u8 {
            for f in ["t", "#", "+", "a/+/b", "a/#", "+/+", "/", "a//b", "é"] {
                v.push(P::Subscribe3(subscribev3::MqttSubscribe::new(id, vec![subscribev3::SubscriptionTopic { topic_filter: f.into(), qos: q }])));
            }
            for q2 in 0..3u8 {
                v.push(P::Subscribe3(subscribev3::MqttSubscribe::new(
                    id,
                    vec![subscribev3::SubscriptionTopic { topic_filter: "x".into(), qos: q }, subscribev3::SubscriptionTopic { topic_filter: "y/#".into(), qos: q2 }, subscribev3::SubscriptionTopic { topic_filter: "z".into(), qos: 1 }],
                )));
            }
        }
        for rcs in [vec![0], vec![1], vec![2], vec![0x80], vec![0, 1, 2, 0x80], vec![0x80, 2]] {
            v.push(P::SubAck3(subackv3::MqttSubAck::new(id, rcs)));
        }
        for fs in [vec!["a"], vec!["a", "b/#"], vec!["+", "é", "$share/g/x"]] {
            v.push(P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(id, fs.iter().map(|x| x.to_string()).collect())));
        }
    }
    for n in [10usize, 40, 127] {
        v.push(P::Subscribe3(subscribev3::MqttSubscribe::new(1, (0..n).map(|i| subscribev3::SubscriptionTopic { topic_filter: format!("t{}", i), qos: (i % 3) as u8 }).collect())));
        v.push(P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(1, (0..n).map(|i| format!("t{}", i)).collect())));
    }
    for s in strs(big).into_iter().filter(|s| !s.is_empty()) {
        v.push(P::Subscribe3(subscribev3::MqttSubscribe::new(1, vec![subscribev3::SubscriptionTopic { topic_filter: s.clone(), qos: 1 }, subscribev3::SubscriptionTopic { topic_filter: "z".into(), qos: 0 }])));
        v.push(P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(1, vec![s, "z".into()])));
    }
    for n in [125usize, 126, 127, 128, 300, 16381, 16382, 16384] {
        v.push(P::SubAck3(subackv3::MqttSubAck::new(3, (0..n).map(|i| (i % 3) as u8).collect())));
    }
    v.push(P::PingReq3(pingreqv3::MqttPingReq::new()));
    v.push(P::PingResp3(pingrespv3::MqttPingResp::new()));
    v.push(P::Disconnect3(disconnectv3::MqttDisconnect::new()));
    v
}

/// One packet of each shape: the seeds for truncation, mutation and chunking.
pub fn shapes(ver: u8) -> Vec<P> {
    let mut v = vec![];
    if ver == 5 {
        let will = Will { will_qos: 1, will_retain: true, will_topic: "w".into(), will_message: vec![5], properties: WillProperties { will_delay_interval: Some(1), payload_format_indicator: Some(1), message_expiry_interval: None, content_type: Some("c".into()), response_topic: None, correlation_data: Some(vec![1]), user_properties: vec![UserProperty("k".into(), "v".into())] } };
        v.push(P::Connect5(connectv5::MqttConnect::new("c".into(), None, None, None, 60, true, vec![])));
        v.push(P::Connect5(connectv5::MqttConnect::new("c".into(), Some("u".into()), Some(vec![1]), Some(will), 60, false, vec![SessionExpiryInterval(9), UserProperty("a".into(), "b".into())])));
        v.push(P::ConnAck5(connackv5::MqttConnAck::new(true, 0, None)));
        v.push(P::ConnAck5(connackv5::MqttConnAck::new(false, 0x87, Some(vec![ReceiveMaximum(2), ReasonString("no".into())]))));
        for q in 0..3 {
            v.push(P::Publish5(publishv5::MqttPublish::new(q, "a/b".into(), if q > 0 { Some(10) } else { None }, vec![1, 2, 3], q == 1, q == 2)));
        }
        v.push(P::Publish5(publishv5::MqttPublish::new_with_prop(1, "t".into(), Some(1), vec![], false, false, vec![TopicAlias(1), SubscriptionIdentifier(300), UserProperty("k".into(), "v".into())])));
        v.push(P::Publish5(publishv5::MqttPublish::new(0, "t".into(), None, blob(130), false, false)));
        v.push(P::PubAck5(pubackv5::MqttPubAck::new(1, 0, vec![])));
        v.push(P::PubAck5(pubackv5::MqttPubAck::new(1, 0x10, vec![])));
        v.push(P::PubAck5(pubackv5::MqttPubAck::new(1, 0x80, vec![ReasonString("r".into())])));
        v.push(P::PubRec5(pubrecv5::MqttPubRec::new(2, 0, vec![])));
        v.push(P::PubRec5(pubrecv5::MqttPubRec::new(2, 0x80, vec![UserProperty("k".into(), "v".into())])));
        v.push(P::PubRel5(pubrelv5::MqttPubRel::new(3, 0, vec![])));
        v.push(P::PubRel5(pubrelv5::MqttPubRel::new(3, 0x92, vec![ReasonString("".into())])));
        v.push(P::PubComp5(pubcompv5::MqttPubComp::new(4, 0, vec![])));
        v.push(P::PubComp5(pubcompv5::MqttPubComp::new(4, 0x92, vec![ReasonString("x".into())])));
        v.push(P::Subscribe5(subscribev5::MqttSubscribe::new(5, vec![subscribev5::TopicSubscription { topic_filter: "a/+".into(), qos: 1, no_local: true, retain_as_published: false, retain_handling: 2 }, subscribev5::TopicSubscription { topic_filter: "$share/g/b".into(), qos: 2, no_local: false, retain_as_published: true, retain_handling: 0 }], vec![SubscriptionIdentifier(7)])));
        v.push(P::SubAck5(subackv5::MqttSubAck::new(5, vec![1, 0x80], vec![ReasonString("r".into())])));
        v.push(P::SubAck5(subackv5::MqttSubAck::new(5, vec![2], vec![])));
        v.push(P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(6, vec!["a/+".into(), "b".into()], vec![UserProperty("k".into(), "v".into())])));
        v.push(P::UnsubAck5(unsubackv5::MqttUnsubAck::new(6, vec![0, 0x11], vec![])));
        v.push(P::PingReq5(pingreqv5::MqttPingReq::new()));
        v.push(P::PingResp5(pingrespv5::MqttPingResp::new()));
        v.push(P::Disconnect5(disconnectv5::MqttDisconnect::new(0, vec![])));
        v.push(P::Disconnect5(disconnectv5::MqttDisconnect::new(0x8e, vec![SessionExpiryInterval(5), ServerReference("s".into())])));
        v.push(P::Auth(authv5::MqttAuth::new(0x18, vec![AuthenticationMethod("m".into()), AuthenticationData(vec![1, 2])])));
        v.push(P::Auth(authv5::MqttAuth::new(0, vec![])));
    } else {
        v.push(P::Connect3(connectv3::MqttConnect::new("c".into(), 60, true)));
        let mut c = connectv3::MqttConnect::new("c".into(), 60, false);
        c.username = Some("u".into());
        c.password = Some(vec![1]);
        c.will = Some(Will3 { retain: true, qos: 1, topic: "w".into(), message: vec![5] });
        v.push(P::Connect3(c));
        v.push(P::ConnAck3(connackv3::MqttConnAck::new(true, 0)));
        v.push(P::ConnAck3(connackv3::MqttConnAck::new(false, 5)));
        for q in 0..3 {
            v.push(P::Publish3(publishv3::MqttPublish::new("a/b".into(), q, vec![1, 2, 3], if q > 0 { Some(10) } else { None }, q == 1, q == 2)));
        }
        v.push(P::Publish3(publishv3::MqttPublish::new("t".into(), 1, vec![], Some(1), false, false)));
        v.push(P::Publish3(publishv3::MqttPublish::new("t".into(), 0, blob(130), None, false, false)));
        v.push(P::PubAck3(pubackv3::MqttPubAck::new(1)));
        v.push(P::PubRec3(pubrecv3::MqttPubRec::new(2)));
        v.push(P::PubRel3(pubrelv3::MqttPubRel::new(3)));
        v.push(P::PubComp3(pubcompv3::MqttPubComp::new(4)));
        v.push(P::Subscribe3(subscribev3::MqttSubscribe::new(5, vec![subscribev3::SubscriptionTopic { topic_filter: "a/+".into(), qos: 1 }, subscribev3::SubscriptionTopic { topic_filter: "b".into(), qos: 2 }])));
        v.push(P::SubAck3(subackv3::MqttSubAck::new(5, vec![1, 0x80])));
        v.push(P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(6, vec!["a/+".into(), "b".into()])));
        v.push(P::UnsubAck3(unsubackv3::MqttUnsubAck::new(6)));
        v.push(P::PingReq3(pingreqv3::MqttPingReq::new()));
        v.push(P::PingResp3(pingrespv3::MqttPingResp::new()));
        v.push(P::Disconnect3(disconnectv3::MqttDisconnect::new()));
    }
    v
}
