//! E01 around the wrap and the exhaustion of identifiers; E09: what CONNECT says.
use crate::eng::*;
use crate::env::*;
use crate::fw::*;
use crate::refcodec::{refenc, want, Want};
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand};
use flowsdk::mqtt_client::engine::MqttEngine;
use flowsdk::mqtt_client::no_io_client::NoIoMqttClient;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::mqttv5::willv5::{Will, WillProperties};
use flowsdk::mqtt_serde::mqttv5::*;

/// E01: identifiers around the wrap of the counter, with old operations unfinished in every pattern.
fn wrap_case(c: &[u8], l: &mut Local) -> Result<(), String> {
    let ver = if c[1] == 0 { 5 } else { 3 };
    let mut w = W::new(&Cfg::v(ver));
    let r = (|| -> Result<(), E> {
        for o in [O::Connect, O::Ok(false)] {
            w.step(o)?;
        }
        let kinds = [O::Pub(1, 0), O::Pub(2, 0), O::Sub, O::Unsub];
        // identifiers 1..=3: which of them stay unfinished, and as what
        let mut held = c[2] as usize;
        for _ in 0..3 {
            let k = held % 5;
            held /= 5;
            w.step(if k == 4 { O::Pub(1, 0) } else { kinds[k] })?;
            // released QoS 2 exchanges are still in use
            if k == 4 || (k == 1 && c[2] % 2 == 0) {
                w.step(O::Ack(9, 0))?;
            }
        }
        let up_to = 65_532 + c[3] as u32 % 4;
        for _ in 3..up_to {
            w.step(O::Pub(1, 0))?;
            w.step(O::Ack(9, 0))?;
            l.steps += 2;
        }
        // across the wrap, each kind, nothing acknowledged; then on a new connection
        for i in 0..10 {
            w.step(kinds[(i + c[3] as usize / 4) % 4])?;
            l.state(&w.digest());
        }
        if c[4] == 1 {
            for o in [O::Lost, O::Connect, O::Ok(true)] {
                w.step(o)?;
            }
        }
        for k in kinds {
            w.step(O::Ack(if c[4] == 0 { 0 } else { 9 }, 0))?;
            w.step(k)?;
        }
        l.outcome(&w.tr);
        w.settle()
    })();
    r.map_err(|e| e.1)
}

/// E01: every identifier in use; what is asked for then is refused, and one answer frees exactly one.
fn exhaust_case(c: &[u8], l: &mut Local) -> Result<(), String> {
    vclock_on();
    let ver = if c[1] == 0 { 5 } else { 3 };
    let cfg = Cfg { rm: 65535, ..Cfg::v(ver) };
    let mut e = MqttEngine::new(cfg.options());
    e.connect();
    e.take_outgoing();
    let w = W::new(&cfg);
    let ok = if ver == 5 { P::ConnAck5(connackv5::MqttConnAck::new(false, 0, None)) } else { P::ConnAck3(connackv3::MqttConnAck::new(false, 0)) };
    e.handle_incoming(&refenc(&ok));
    let sub = |e: &mut MqttEngine| e.subscribe(SubscribeCommand::new(None, vec![subscribev5::TopicSubscription::new_simple("a".into(), 1)], vec![]));
    let publ = |e: &mut MqttEngine, q: u8, id: Option<u16>| e.publish(PublishCommand::new("a".into(), vec![], q, false, false, id, vec![], 0));
    let mut seen = vec![false; 65536];
    // the first so many identifiers go to SUBSCRIBE
    let subs = c[2] as usize;
    for i in 0..65535usize {
        let id = if i < subs {
            sub(&mut e).map_err(|x| format!("subscribe was refused: {:?}", x))?
        } else {
            publ(&mut e, 1 + (i % 2) as u8, None).map_err(|x| format!("a publish was refused although identifiers are free: {:?}", x))?.unwrap_or(0)
        };
        if id == 0 || seen[id as usize] {
            return Err(format!("identifier {} was assigned twice or is zero", id));
        }
        seen[id as usize] = true;
        if i % 64 == 0 {
            e.take_outgoing();
        }
        l.steps += 1;
    }
    e.take_outgoing();
    for free in [1u16, 700, 65535, 32768, 2] {
        if let Ok(id) = publ(&mut e, 1, None) {
            return Err(format!("a publish was accepted with identifier {:?} while all were in use", id));
        }
        if let Ok(id) = sub(&mut e) {
            return Err(format!("a subscribe was accepted with identifier {} while all were in use", id));
        }
        if publ(&mut e, 2, Some(free)).is_ok() {
            return Err("a chosen identifier in use was accepted".into());
        }
        publ(&mut e, 0, None).map_err(|x| format!("a QoS 0 publish was refused: {:?}", x))?;
        let i = free as usize - 1;
        let ps = if i < subs {
            vec![w.s_sub(free, 0).0]
        } else if i % 2 == 0 {
            vec![w.s_ack(A::Ack, free, 0)]
        } else {
            vec![w.s_ack(A::Rec, free, 0), w.s_ack(A::Comp, free, 0)]
        };
        for p in ps {
            e.handle_incoming(&refenc(&p));
            e.take_outgoing();
        }
        let q = if i < subs { 1 } else { 1 + (i % 2) as u8 };
        match publ(&mut e, q, None) {
            Ok(Some(x)) if x == free => {}
            x => return Err(format!("after identifier {} was freed, a publish got {:?}", free, x)),
        }
        e.take_outgoing();
        if i < subs {
            // it is a publish now, and once acknowledged a subscribe may have it
            e.handle_incoming(&refenc(&w.s_ack(A::Ack, free, 0)));
            match sub(&mut e) {
                Ok(x) if x == free => {}
                x => return Err(format!("after identifier {} was freed, a subscribe got {:?}", free, x)),
            }
        }
        l.outcome(&free);
    }
    Ok(())
}

/// version, wrapper, client id, clean, keep-alive, user, password, will, expiry, max packet, response info, problem info
const DIMS: [usize; 12] = [3, 2, 3, 2, 3, 3, 3, 7, 3, 3, 3, 3];

/// E09: CONNECT says what was configured.
fn connect_case(x: &[u8], l: &mut Local) -> Result<(), String> {
    vclock_on();
    let ver = [5, 3, 4][x[0] as usize];
    let id = ["", "c", "client-\u{e9}-0123456789012345678901234567890"][x[2] as usize];
    let ka = [0u16, 1, 65535][x[4] as usize];
    let user = [None, Some(""), Some("us\u{e9}r")][x[5] as usize];
    let pw: Option<&[u8]> = [None, Some(&b""[..]), Some(&[0u8, 255, 1][..])][x[6] as usize];
    if ver != 5 && (user.is_none() && pw.is_some() || id.is_empty() && x[3] == 0) {
        return Ok(()); // not representable in MQTT 3.1.1
    }
    let full = WillProperties {
        will_delay_interval: Some(7),
        payload_format_indicator: Some(1),
        message_expiry_interval: Some(9),
        content_type: Some("ct".into()),
        response_topic: Some("r/t".into()),
        correlation_data: Some(vec![1, 0, 2]),
        user_properties: vec![Property::UserProperty("a".into(), "b".into()), Property::UserProperty("a".into(), "c".into())],
    };
    let mk = |q, r, m: &[u8], p: WillProperties| {
        let mut w = Will::new("w/t".into(), m.to_vec(), q, r);
        w.properties = p;
        w
    };
    let will = match x[7] {
        0 => None,
        1 => Some(mk(0, false, b"", WillProperties::default())),
        2 => Some(mk(1, false, b"m", WillProperties::default())),
        3 => Some(mk(2, true, &[0, 159], WillProperties::default())),
        4 => Some(mk(0, true, b"m", full)),
        5 => Some(mk(1, true, b"m", WillProperties { will_delay_interval: Some(0), ..WillProperties::default() })),
        _ => Some(mk(2, false, b"", WillProperties { content_type: Some("".into()), correlation_data: Some(vec![]), ..WillProperties::default() })),
    };
    let mut o = MqttClientOptions::builder().peer("h:1").client_id(id).mqtt_version(ver).clean_start(x[3] == 1).keep_alive(ka);
    if let Some(u) = user {
        o = o.username(u);
    }
    if let Some(p) = pw {
        o = o.password(p.to_vec());
    }
    if let Some(w) = &will {
        o = o.will(w.clone());
    }
    let mut pr = vec![];
    if x[8] > 0 {
        let n = [0u32, u32::MAX][x[8] as usize - 1];
        o = o.session_expiry_interval(n);
        pr.push(Property::SessionExpiryInterval(n));
    }
    if x[9] > 0 {
        let n = [1u32, u32::MAX][x[9] as usize - 1];
        o = o.maximum_packet_size(n);
        pr.push(Property::MaximumPacketSize(n));
    }
    if x[10] > 0 {
        o = o.request_response_information(x[10] == 1);
        pr.push(Property::RequestResponseInformation((x[10] == 1) as u8));
    }
    if x[11] > 0 {
        o = o.request_problem_information(x[11] == 1);
        pr.push(Property::RequestProblemInformation((x[11] == 1) as u8));
    }
    let o = o.build();
    let mut d: Box<dyn Drv> = if x[1] == 1 { Box::new(NoIoMqttClient::new(o)) } else { Box::new(MqttEngine::new(o)) };
    d.connect();
    let b = d.out();
    l.outcome(&b);
    // what is on the wire, read by the reference decoder
    let (got, n) = match want(&b, if ver == 5 { 5 } else { 4 }) {
        Want::Packet(p, n) => (p, n),
        e => return Err(format!("connect() wrote no packet: {:?} {}", e, hex(&b))),
    };
    if n != b.len() {
        return Err("more than CONNECT was written".into());
    }
    let ok = match got {
        P::Connect5(mut c) if ver == 5 => {
            // what the options do not name may be there with its default meaning
            c.properties.retain(|p| match p {
                Property::ReceiveMaximum(65535) | Property::TopicAliasMaximum(0) => false,
                Property::RequestResponseInformation(0) => x[10] != 0,
                Property::RequestProblemInformation(1) => x[11] != 0,
                Property::SessionExpiryInterval(0) => x[8] != 0,
                _ => true,
            });
            let key = |p: &Property| format!("{:?}", p);
            c.properties.sort_by_key(key);
            pr.sort_by_key(key);
            c == connectv5::MqttConnect::new(id.into(), user.map(|u| u.into()), pw.map(|p| p.to_vec()), will, ka, x[3] == 1, pr)
        }
        P::Connect3(c) if ver != 5 => {
            let mut e = connectv3::MqttConnect::new(id.into(), ka, x[3] == 1);
            e.username = user.map(|u| u.into());
            e.password = pw.map(|p| p.to_vec());
            e.will = will.map(|w| connectv3::Will { retain: w.will_retain, qos: w.will_qos, topic: w.will_topic, message: w.will_message });
            c == e
        }
        _ => false,
    };
    if !ok {
        return Err(format!("CONNECT differs from the configured options: {}", hex(&b)));
    }
    Ok(())
}

fn special(c: &[u8], l: &mut Local) -> Result<(), String> {
    match c[0] {
        201 => wrap_case(c, l),
        202 => exhaust_case(c, l),
        203 => connect_case(&c[1..], l),
        _ => unreachable!(),
    }
}

pub fn specials(ctx: &Ctx, id: &str) {
    let mut cases: Vec<Vec<u8>> = vec![];
    match id {
        "E01" => {
            for v in 0..2u8 {
                for h in 0..125u8 {
                    if !ctx.thorough && ![0, 6, 12, 18, 24, 31, 62, 93, 124, 27, 49, 74].contains(&h) {
                        continue;
                    }
                    for k in 0..16u8 {
                        if !ctx.thorough && (k + h) % 4 != 0 {
                            continue;
                        }
                        for r in 0..2 {
                            cases.push(vec![201, v, h, k, r]);
                        }
                    }
                }
                cases.push(vec![202, v, 0]);
                cases.push(vec![202, v, 3]);
            }
        }
        "E09" => {
            let n: usize = DIMS.iter().product();
            ctx.note("CONNECT contents", format!("{} option combinations", n));
            ctx.par(n.div_ceil(1000), |j, l| {
                for i in j * 1000..((j + 1) * 1000).min(n) {
                    let mut k = i;
                    let mut c = vec![203u8];
                    for m in DIMS {
                        c.push((k % m) as u8);
                        k /= m;
                    }
                    one(ctx, &c, l);
                }
            });
        }
        _ => {}
    }
    if !cases.is_empty() {
        ctx.note("identifier wrap-around and exhaustion", format!("{} runs of 65,535 operations", cases.len()));
        ctx.par(cases.len(), |j, l| one(ctx, &cases[j], l));
    }
}
pub fn one(ctx: &Ctx, c: &[u8], l: &mut Local) {
    case(c);
    l.evals += 1;
    match guard(|| special(c, l)) {
        Ok(Ok(())) => {}
        Ok(Err(m)) => ctx.fail(&sigify(&m), format!("{} (case {:?})", m, c), c),
        Err(p) => ctx.fail(&format!("panic {}", sigify(&p)), format!("panic: {} (case {:?})", p, c), c),
    }
}
