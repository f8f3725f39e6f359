//! G01: the conversions of the gRPC bridge, over the wire alphabets of C01/C02.
use crate::alpha;
use crate::codec::{decode, tname, Got};
use crate::fw::*;
use crate::refcodec::*;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property as Q;
use mqtt_grpc_proxy::mqtt_unified_pb::{MessageDirection as Dir, MqttStreamMessage};
use mqtt_grpc_proxy::*;
use prost::Message;

/// No properties at all and an empty list are the same packet.
fn canon(mut p: P) -> P {
    if let P::ConnAck5(c) = &mut p {
        if c.properties.as_deref() == Some(&[]) {
            c.properties = None;
        }
    }
    p
}

/// The packet as a peer's parser delivers it, sent through the bridge and back.
fn cross(ctx: &Ctx, ver: u8, wire: &[u8], seq: u64, dir: Dir, l: &mut Local) {
    let mut c = vec![ver, dir as u8];
    c.extend(seq.to_le_bytes());
    c.extend(wire);
    case(&c);
    let Ok(Got::Packet(p, n)) = decode(wire, ver) else { return };
    if n != wire.len() {
        return;
    }
    l.evals += 1;
    let t = tname(&p);
    let r = guard(|| {
        let m = convert_mqtt_to_stream_message(&p, seq, dir)?;
        let b = m.encode_to_vec();
        let m2 = MqttStreamMessage::decode(&b[..]).ok()?;
        let same = m2 == m;
        let head = (m2.sequence_id, m2.direction);
        let q = convert_stream_message_to_mqtt_packet(m2)?;
        let out = q.to_bytes();
        Some((same, head, q, out, b.len()))
    });
    l.steps += 4;
    match r {
        Err(e) => ctx.fail(&format!("panic {} {}", t, sigify(&e)), format!("{} on {:?}", e, p), &c),
        Ok(None) => ctx.fail(&format!("dropped {}", t), format!("no packet comes back for {:?}", p), &c),
        Ok(Some((same, head, q, out, n))) => {
            l.outcome(&(t.clone(), n, hash(&wire)));
            if !same || head != (seq, dir as i32) {
                ctx.fail(&format!("stream-message {}", t), format!("sequence/direction {:?} instead of {:?}", head, (seq, dir)), &c);
            }
            if canon(q.clone()) != canon(p.clone()) {
                ctx.fail(&format!("different {}", t), format!("sent {:?} received {:?}", p, q), &c);
            }
            match out {
                Ok(o) if want(&o, ver) == want(wire, ver) => {}
                o => ctx.fail(&format!("bytes {}", t), format!("{} becomes {:?}", hex(wire), o.map(|x| hex(&x))), &c),
            }
        }
    }
}

fn with_auth(ver: u8) -> Vec<P> {
    let mut v = vec![];
    for u in [None, Some(""), Some("u")] {
        for pw in [None, Some(vec![]), Some(vec![0u8]), Some(b"pw".to_vec())] {
            if ver == 5 {
                let c = flowsdk::mqtt_serde::mqttv5::connectv5::MqttConnect::new("c".into(), u.map(|x| x.to_string()), pw.clone(), None, 5, true, vec![]);
                v.push(P::Connect5(c));
            } else {
                let mut c = flowsdk::mqtt_serde::mqttv3::connectv3::MqttConnect::new("c".into(), 5, true);
                c.username = u.map(|x| x.to_string());
                c.password = pw.clone();
                v.push(P::Connect3(c));
            }
        }
    }
    v
}

pub fn g01(ctx: &Ctx) {
    ctx.note("rule", "every packet of the C01/C02 alphabets as delivered by the real decoder, converted to its stream message, through protobuf bytes and back; plus every value of every 16-bit identifier field, reason code and small integer property; distinct = different wire form");
    for ver in [5u8, 4] {
        let mut v = if ver == 5 { alpha::packets5(true) } else { alpha::packets3(true) };
        v.extend(with_auth(ver));
        ctx.sample(|| format!("{:?}", v[v.len() / 3]).chars().take(300).collect());
        ctx.note(if ver == 5 { "packets_v5" } else { "packets_v3" }, v.len());
        let chunk = 64;
        ctx.par(v.len().div_ceil(chunk), |i, l| {
            for p in &v[i * chunk..((i + 1) * chunk).min(v.len())] {
                let w = refenc(p);
                let k = w.len() as u64 * 0x1_0000_0001;
                cross(ctx, ver, &w, k, if k % 2 == 0 { Dir::ClientToBroker } else { Dir::BrokerToClient }, l);
            }
        });
        // every pair of sequence number class and direction
        ctx.par(1, |_, l| {
            for p in v.iter().step_by(97) {
                for s in [0, 1, 127, 128, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX] {
                    for d in [Dir::ClientToBroker, Dir::BrokerToClient] {
                        cross(ctx, ver, &refenc(p), s, d, l);
                    }
                }
            }
        });
    }
    // every 16-bit identifier in every packet that has one, every reason code
    ctx.par(256, |hi, l| {
        for lo in 0..256usize {
            let n = (hi << 8 | lo) as u16;
            let mut a: Vec<P> = vec![];
            let mut b: Vec<P> = vec![];
            {
                use flowsdk::mqtt_serde::mqttv5::*;
                if n > 0 {
                    a.push(P::PubAck5(pubackv5::MqttPubAck::new(n, 0, vec![])));
                    a.push(P::PubRec5(pubrecv5::MqttPubRec::new(n, 0, vec![])));
                    a.push(P::PubRel5(pubrelv5::MqttPubRel::new(n, 0, vec![])));
                    a.push(P::PubComp5(pubcompv5::MqttPubComp::new(n, 0, vec![])));
                    a.push(P::Publish5(publishv5::MqttPublish::new(1 + (n % 2) as u8, "t".into(), Some(n), vec![hi as u8], n % 3 == 0, n % 5 == 0)));
                    a.push(P::Subscribe5(subscribev5::MqttSubscribe::new(n, vec![subscribev5::TopicSubscription::new_simple("a".into(), 1)], vec![Q::SubscriptionIdentifier(n as u32)])));
                    a.push(P::SubAck5(subackv5::MqttSubAck::new(n, vec![0, lo as u8], vec![])));
                    a.push(P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(n, vec!["a".into()], vec![])));
                    a.push(P::UnsubAck5(unsubackv5::MqttUnsubAck::new(n, vec![lo as u8], vec![])));
                    a.push(P::ConnAck5(connackv5::MqttConnAck::new(false, 0, Some(vec![Q::ReceiveMaximum(n), Q::TopicAliasMaximum(n), Q::ServerKeepAlive(n)]))));
                    a.push(P::Publish5(publishv5::MqttPublish::new_with_prop(0, "t".into(), None, vec![lo as u8], false, false, vec![Q::TopicAlias(n), Q::SubscriptionIdentifier(n as u32 * 4096 + lo as u32)])));
                }
                a.push(P::Connect5(connectv5::MqttConnect::new("c".into(), None, None, None, n, n % 2 == 0, vec![Q::SessionExpiryInterval(n as u32 * 65537)])));
            }
            {
                use flowsdk::mqtt_serde::mqttv3::*;
                if n > 0 {
                    b.push(P::PubAck3(pubackv3::MqttPubAck::new(n)));
                    b.push(P::PubRec3(pubrecv3::MqttPubRec::new(n)));
                    b.push(P::PubRel3(pubrelv3::MqttPubRel::new(n)));
                    b.push(P::PubComp3(pubcompv3::MqttPubComp::new(n)));
                    b.push(P::Publish3(publishv3::MqttPublish::new("t".into(), 1 + (n % 2) as u8, vec![hi as u8], Some(n), n % 3 == 0, n % 5 == 0)));
                    b.push(P::Subscribe3(subscribev3::MqttSubscribe::new(n, vec![subscribev3::SubscriptionTopic { topic_filter: "a".into(), qos: 1 }])));
                    b.push(P::SubAck3(subackv3::MqttSubAck::new(n, vec![0, 0x80])));
                    b.push(P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(n, vec!["a".into()])));
                    b.push(P::UnsubAck3(unsubackv3::MqttUnsubAck::new(n)));
                }
                b.push(P::Connect3(connectv3::MqttConnect::new("c".into(), n, n % 2 == 0)));
            }
            for (ver, v) in [(5u8, a), (4, b)] {
                for p in &v {
                    cross(ctx, ver, &refenc(p), n as u64, Dir::ClientToBroker, l);
                }
            }
        }
    });
    // every reason code the decoder accepts, on every packet with one
    ctx.par(256, |r, l| {
        let r = r as u8;
        use flowsdk::mqtt_serde::mqttv5::*;
        let s = vec![Q::ReasonString("r".into())];
        for q in [vec![], s] {
            for p in [
                P::PubAck5(pubackv5::MqttPubAck::new(7, r, q.clone())),
                P::PubRec5(pubrecv5::MqttPubRec::new(7, r, q.clone())),
                P::PubRel5(pubrelv5::MqttPubRel::new(7, r, q.clone())),
                P::PubComp5(pubcompv5::MqttPubComp::new(7, r, q.clone())),
                P::ConnAck5(connackv5::MqttConnAck::new(false, r, Some(q.clone()))),
                P::Disconnect5(disconnectv5::MqttDisconnect::new(r, q.clone())),
                P::Auth(authv5::MqttAuth::new(r, q.clone())),
            ] {
                cross(ctx, 5, &refenc(&p), r as u64, Dir::BrokerToClient, l);
            }
        }
        cross(ctx, 4, &refenc(&P::ConnAck3(flowsdk::mqtt_serde::mqttv3::connackv3::MqttConnAck::new(false, r))), 1, Dir::BrokerToClient, l);
    });
}

pub fn g01_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    let seq = u64::from_le_bytes(c[2..10].try_into().unwrap());
    cross(ctx, c[0], &c[10..], seq, if c[1] == 0 { Dir::ClientToBroker } else { Dir::BrokerToClient }, &mut l);
    ctx.merge(l);
}
