//! C01-C04: codec round trip, total and confined decoding, rejection of malformed packets.
use crate::alpha;
use crate::fw::*;
use crate::refcodec::*;
use flowsdk::mqtt_serde::control_packet::{MqttControlPacket, MqttPacket as P};
use flowsdk::mqtt_serde::parser::{ParseError, ParseOk};

pub fn tname(p: &P) -> String {
    format!("{:?}", p).split(['(', ' ']).next().unwrap_or("?").to_string()
}

pub enum Got {
    Packet(P, usize),
    Cont(usize, usize),
    NeedMore,
    Err(String),
    Other(String),
}
pub fn decode(b: &[u8], ver: u8) -> Result<Got, String> {
    guard(|| match P::from_bytes_with_version(b, ver) {
        Ok(ParseOk::Packet(p, n)) => Got::Packet(p, n),
        Ok(ParseOk::Continue(h, c)) => Got::Cont(h, c),
        Ok(o) => Got::Other(format!("{:?}", o)),
        Err(ParseError::More(..) | ParseError::BufferTooShort | ParseError::BufferEmpty) => Got::NeedMore,
        Err(e) => Got::Err(format!("{:?}", e)),
    })
}
fn show(g: &Result<Got, String>) -> String {
    match g {
        Ok(Got::Packet(p, n)) => {
            let s = format!("{:?}", p);
            format!("packet({} bytes) {}", n, s.chars().take(300).collect::<String>())
        }
        Ok(Got::Cont(h, c)) => format!("continue({},{})", h, c),
        Ok(Got::NeedMore) => "need-more error".into(),
        Ok(Got::Err(e)) => format!("error {}", e),
        Ok(Got::Other(e)) => e.clone(),
        Err(p) => format!("PANIC {}", p),
    }
}

fn encode_to(p: &P) -> Result<Vec<u8>, ParseError> {
    let mut v = vec![0xaa, 0xbb];
    macro_rules! go { ($($n:ident),*) => { match p { $(P::$n(x) => x.encode_to_buffer(&mut v)?,)* } } }
    go!(Connect5, ConnAck5, Publish5, PubAck5, PubRec5, PubRel5, PubComp5, Subscribe5, SubAck5, Unsubscribe5, UnsubAck5, PingReq5, PingResp5, Disconnect5, Auth, Connect3, ConnAck3, Publish3, PubAck3, PubRec3, PubRel3, PubComp3, Subscribe3, SubAck3, Unsubscribe3, UnsubAck3, PingReq3, PingResp3, Disconnect3);
    Ok(v)
}

/// All legal encodings of a packet: canonical, plus the longer forms the specification also allows.
fn encodings(p: &P) -> Vec<Vec<u8>> {
    let c = refenc(p);
    let mut v = vec![c.clone()];
    let mut ack = |first: u8, id: u16, rc: u8, none: bool| {
        if none {
            let mut b = id.to_be_bytes().to_vec();
            b.push(rc);
            v.push(frame(first, &b));
            b.push(0);
            v.push(frame(first, &b));
        }
    };
    match p {
        P::PubAck5(a) => ack(0x40, a.packet_id, a.reason_code, a.properties.is_empty()),
        P::PubRec5(a) => ack(0x50, a.packet_id, a.reason_code, a.properties.is_empty()),
        P::PubRel5(a) => ack(0x62, a.packet_id, a.reason_code, a.properties.is_empty()),
        P::PubComp5(a) => ack(0x70, a.packet_id, a.reason_code, a.properties.is_empty()),
        P::Disconnect5(a) if a.properties.is_empty() => {
            v.push(frame(0xe0, &[a.reason_code]));
            v.push(frame(0xe0, &[a.reason_code, 0]));
        }
        _ => {}
    }
    v
}

fn trailers() -> Vec<Vec<u8>> {
    vec![vec![], vec![0], vec![0xff; 9], vec![0xc0, 0x00], vec![0x30, 0x05, 0, 1, b't', 0, 1], vec![0x05; 40]]
}

fn roundtrip(ctx: &Ctx, ver: u8, p: &P, l: &mut Local) {
    let r = refenc(p);
    let mut c = vec![ver];
    c.extend(&r);
    case(&c);
    l.evals += 1;
    let t = tname(p);
    l.outcome(&(r.len(), r.first().copied(), hash(&r)));
    match guard(|| p.to_bytes()) {
        Err(e) => ctx.fail(&format!("encode-panic {} {}", t, sigify(&e)), e, &c),
        Ok(Err(e)) => ctx.fail(&format!("encode-error {} {}", t, sigify(&format!("{:?}", e))), format!("{:?} on {:?}", e, p), &c),
        Ok(Ok(b)) => {
            let ok = match want(&b, ver) {
                Want::Packet(q, n) => q == *p && n == b.len(),
                _ => false,
            };
            if !ok {
                ctx.fail(&format!("encode-wrong {}", t), format!("got {} expected {} for {:?}", hex(&b), hex(&r), p), &c);
            }
            match guard(|| encode_to(p)) {
                Ok(Ok(v)) if v.len() >= 2 && v[..2] == [0xaa, 0xbb] && v[2..] == b[..] => {}
                o => ctx.fail(&format!("encode-to-buffer-differs {}", t), format!("{:?}", o.map(|x| x.map(|y| hex(&y)))), &c),
            }
        }
    }
    for (ei, e) in encodings(p).into_iter().enumerate() {
        for (ti, tr) in trailers().into_iter().enumerate() {
            if e.len() > 20000 && ti > 1 {
                break;
            }
            l.steps += 1;
            let mut b = e.clone();
            b.extend(&tr);
            let g = decode(&b, ver);
            match &g {
                Ok(Got::Packet(q, n)) if q == p && *n == e.len() => {}
                _ => {
                    let k = match &g {
                        Err(x) => format!("panic {}", sigify(x)),
                        Ok(Got::Packet(_, n)) if *n == e.len() => "different-packet".into(),
                        Ok(Got::Packet(..)) => "wrong-length".into(),
                        o => {
                            let _ = o;
                            sigify(&show(&g))
                        }
                    };
                    ctx.fail(&format!("decode {} enc{} {}", t, if ei == 0 { 0 } else { 1 }, k), format!("bytes {} trailer {} -> {}; expected {:?}", hex(&e), hex(&tr), show(&g), p), &c);
                }
            }
        }
    }
}

pub fn c01(ctx: &Ctx, ver: u8) {
    let v = if ver == 5 { alpha::packets5(true) } else { alpha::packets3(true) };
    ctx.note("alphabet_size", v.len());
    ctx.sample(|| format!("{:?}", v[v.len() / 3]));
    ctx.sample(|| format!("{:?}", v[v.len() / 2]).chars().take(400).collect());
    let chunk = 64;
    ctx.par(v.len().div_ceil(chunk), |i, l| {
        for p in &v[i * chunk..((i + 1) * chunk).min(v.len())] {
            roundtrip(ctx, ver, p, l);
        }
    });
    // integers: exhaustive 16-bit identifiers and keep-alives, all one-byte payloads
    ctx.par(256, |hi, l| {
        for lo in 0..256usize {
            let n = (hi << 8 | lo) as u16;
            let mut ps = vec![];
            if ver == 5 {
                use flowsdk::mqtt_serde::mqttv5::common::properties::Property as Q;
                use flowsdk::mqtt_serde::mqttv5::*;
                if n > 0 {
                    ps.push(P::PubAck5(pubackv5::MqttPubAck::new(n, 0, vec![])));
                    ps.push(P::Publish5(publishv5::MqttPublish::new(1, "t".into(), Some(n), vec![hi as u8], false, false)));
                    ps.push(P::Subscribe5(subscribev5::MqttSubscribe::new(n, vec![subscribev5::TopicSubscription::new_simple("a".into(), 1)], vec![])));
                    ps.push(P::SubAck5(subackv5::MqttSubAck::new(n, vec![lo as u8], vec![])));
                    ps.push(P::ConnAck5(connackv5::MqttConnAck::new(false, 0, Some(vec![Q::ReceiveMaximum(n), Q::TopicAliasMaximum(n)]))));
                }
                ps.push(P::Connect5(connectv5::MqttConnect::new("c".into(), None, None, None, n, true, vec![])));
                ps.push(P::Publish5(publishv5::MqttPublish::new_with_prop(0, "t".into(), None, vec![hi as u8, lo as u8], false, false, vec![Q::MessageExpiryInterval(n as u32 * 65537)])));
            } else {
                use flowsdk::mqtt_serde::mqttv3::*;
                if n > 0 {
                    ps.push(P::PubAck3(pubackv3::MqttPubAck::new(n)));
                    ps.push(P::PubRel3(pubrelv3::MqttPubRel::new(n)));
                    ps.push(P::Publish3(publishv3::MqttPublish::new("t".into(), 1, vec![hi as u8], Some(n), false, false)));
                    ps.push(P::Subscribe3(subscribev3::MqttSubscribe::new(n, vec![subscribev3::SubscriptionTopic { topic_filter: "a".into(), qos: 1 }])));
                }
                ps.push(P::Connect3(connectv3::MqttConnect::new("c".into(), n, true)));
                ps.push(P::Publish3(publishv3::MqttPublish::new("t".into(), 0, vec![hi as u8, lo as u8], None, false, false)));
            }
            for p in &ps {
                roundtrip(ctx, ver, p, l);
            }
        }
    });
    // every remaining length around each boundary and all small ones
    let top = if ctx.thorough { 17000usize } else { 600 };
    ctx.par(top, |n, l| {
        let p = if ver == 5 {
            P::Publish5(flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish::new(0, "t".into(), None, alpha::blob(n), false, false))
        } else {
            P::Publish3(flowsdk::mqtt_serde::mqttv3::publishv3::MqttPublish::new("t".into(), 0, alpha::blob(n), None, false, false))
        };
        roundtrip(ctx, ver, &p, l);
    });
    if ctx.thorough {
        ctx.par(1, |_, l| {
            let hdr = if ver == 5 { 4 } else { 3 };
            let n = 268_435_455 - hdr;
            let p = if ver == 5 {
                P::Publish5(flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish::new(0, "t".into(), None, vec![7; n], false, false))
            } else {
                P::Publish3(flowsdk::mqtt_serde::mqttv3::publishv3::MqttPublish::new("t".into(), 0, vec![7; n], None, false, false))
            };
            let c = [ver, 0xff, 0xff, 0xff, 0xff];
            case(&c);
            l.evals += 1;
            match guard(|| p.to_bytes()) {
                Ok(Ok(b)) => {
                    if framing(&b) != (Framing::Frame { hdr: 5, total: 5 + 268_435_455 }) {
                        ctx.fail("max-length framing", hex(&b[..8]), &c);
                    }
                    case(&c);
                    match decode(&b, ver) {
                        Ok(Got::Packet(q, k)) if q == p && k == b.len() => {}
                        g => ctx.fail("max-length decode", show(&g), &c),
                    }
                }
                o => ctx.fail("max-length encode", format!("{:?}", o.map(|x| x.map(|b| b.len()))), &c),
            }
        });
    }
}
pub fn c01_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    if let Want::Packet(p, _) = want(&c[1..], c[0]) {
        roundtrip(ctx, c[0], &p, &mut l);
    }
}

// ------------------------------------------------------------------ C03 / C04
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Total,
    Reject,
}

fn ename(r: &Want) -> &'static str {
    match r {
        Want::Reject(r, _) => r,
        _ => "",
    }
}

pub fn judge(ctx: &Ctx, mode: Mode, ver: u8, b: &[u8], l: &mut Local) {
    let mut c = [0u8; 600];
    let n = b.len().min(599);
    c[0] = ver;
    c[1..1 + n].copy_from_slice(&b[..n]);
    let cs = &c[..1 + n];
    case(cs);
    l.evals += 1;
    let g = decode(b, ver);
    let w = want(b, ver);
    let ty = b.first().map(|x| x >> 4).unwrap_or(0);
    match mode {
        Mode::Total => {
            match &g {
                Err(p) => {
                    ctx.fail(&format!("panic v{} type{} {}", ver, ty, sigify(p)), format!("{} on {}", p, hex(b)), cs);
                    return;
                }
                Ok(Got::Packet(_, n)) => {
                    let ok = matches!(framing(b), Framing::Frame { total, .. } if total == *n);
                    if !ok {
                        ctx.fail(&format!("consumed v{} type{}", ver, ty), format!("{} -> {} but framing {:?}", hex(b), show(&g), framing(b)), cs);
                    }
                }
                Ok(Got::Cont(h, k)) => {
                    if framing(b) != Framing::Incomplete || *h == 0 || *k != 0 {
                        ctx.fail(&format!("continue v{} type{}", ver, ty), format!("{} -> {} but framing {:?}", hex(b), show(&g), framing(b)), cs);
                    }
                }
                Ok(Got::Other(_)) => ctx.fail(&format!("odd v{} type{}", ver, ty), show(&g), cs),
                _ => {}
            }
            l.outcome(&(ver, ty, match &g { Ok(Got::Packet(..)) => 0, Ok(Got::Cont(..)) => 1, Ok(Got::NeedMore) => 2, _ => 3 }, ename(&w), b.len()));
            // locality: bytes after the frame do not matter
            if let Framing::Frame { total, .. } = framing(b) {
                if total == b.len() {
                    for t in [&[0u8][..], &[0xff; 12], &[0x00, 0x01, b'a', 0x00, 0x05, 1, 2, 3, 4, 5, 6, 7, 8]] {
                        let mut x = b.to_vec();
                        x.extend(t);
                        l.steps += 1;
                        let g2 = decode(&x, ver);
                        let same = match (&g, &g2) {
                            (Ok(Got::Packet(p, n)), Ok(Got::Packet(q, m))) => p == q && n == m,
                            (Ok(Got::Err(_) | Got::NeedMore), Ok(Got::Err(_) | Got::NeedMore)) => true,
                            _ => false,
                        };
                        if !same {
                            let k = match &g2 {
                                Err(p) => format!("panic {}", sigify(p)),
                                Ok(Got::Packet(..)) => "reads-past-frame".into(),
                                _ => "differs".into(),
                            };
                            ctx.fail(&format!("locality v{} type{} {}", ver, ty, k), format!("{} -> {}; with trailer {} -> {}", hex(b), show(&g), hex(t), show(&g2)), cs);
                        }
                    }
                }
            }
        }
        Mode::Reject => {
            l.outcome(&(ver, ty, ename(&w), b.len()));
            if let Want::Reject(r, Some(total)) = &w {
                if *total == b.len() && !r.ends_with('*') {
                    for t in [&[][..], &[0u8][..], &[0x00, 0x01, b'a', 0x00, 0x05, 1, 2, 3, 4, 5, 6, 7, 8], &[0x01; 40]] {
                        let mut x = b.to_vec();
                        x.extend(t);
                        l.steps += 1;
                        let g = decode(&x, ver);
                        if let Ok(Got::Packet(..) | Got::Cont(..) | Got::Other(_)) = &g {
                            let ctxt = if t.is_empty() { "" } else { " with-bytes-after-frame" };
                            ctx.fail(&format!("accepted v{} type{} {}{}", ver, ty, r, ctxt), format!("{} (+{}) violates {} but -> {}", hex(b), hex(t), r, show(&g)), cs);
                            break;
                        }
                    }
                }
            } else if let Want::Reject(r, None) = &w {
                if let Ok(Got::Packet(..)) = &g {
                    ctx.fail(&format!("accepted v{} type{} {}", ver, ty, r), format!("{} -> {}", hex(b), show(&g)), cs);
                }
            }
        }
    }
}

/// The corpus: short strings, truncations, mutations, insertions and deletions of each shape.
fn corpus(ctx: &Ctx, mode: Mode) {
    for ver in [4u8, 5] {
        // all strings of length <= 2; length 3 (thorough: all; quick: all first bytes, structural others)
        let s: &[u8] = &[0, 1, 2, 3, 4, 5, 0x10, 0x26, 0x7f, 0x80, 0x81, 0xff];
        ctx.par(256, |a, l| {
            if a == 0 {
                judge(ctx, mode, ver, &[], l);
            }
            judge(ctx, mode, ver, &[a as u8], l);
            for b in 0..256usize {
                judge(ctx, mode, ver, &[a as u8, b as u8], l);
                if ctx.thorough || b < 4 || b >= 0x7e && b < 0x84 || b == 0xff {
                    for c in 0..256usize {
                        judge(ctx, mode, ver, &[a as u8, b as u8, c as u8], l);
                    }
                }
            }
            // bodies of length 2..4 (thorough 5) over a structural alphabet, with the frame length exact
            let max = if ctx.thorough { 5 } else { 4 };
            for n in 2..=max {
                let mut idx = vec![0usize; n];
                'o: loop {
                    let mut v = vec![a as u8, n as u8];
                    v.extend(idx.iter().map(|i| s[*i]));
                    judge(ctx, mode, ver, &v, l);
                    let mut i = n;
                    loop {
                        if i == 0 {
                            break 'o;
                        }
                        i -= 1;
                        idx[i] += 1;
                        if idx[i] < s.len() {
                            break;
                        }
                        idx[i] = 0;
                    }
                }
            }
        });
        let seeds: Vec<Vec<u8>> = alpha::shapes(ver).iter().map(refenc).collect();
        ctx.sample(|| format!("seed frame v{}: {}", ver, hex(&seeds[1])));
        let small: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 6, 0x0b, 0x10, 0x1f, 0x23, 0x26, 0x2b, 0x2f, 0x7f, 0x80, 0xc0, 0xff];
        ctx.par(seeds.len(), |i, l| {
            let f = &seeds[i];
            // truncations: incomplete, never malformed
            for n in 0..f.len() {
                judge(ctx, mode, ver, &f[..n], l);
                if mode == Mode::Total {
                    match decode(&f[..n], ver) {
                        Ok(Got::Cont(..)) | Ok(Got::NeedMore) => {}
                        g => {
                            let mut c = vec![ver];
                            c.extend(&f[..n]);
                            ctx.fail(&format!("prefix v{} type{} not-incomplete", ver, f[0] >> 4), format!("{} bytes of {} -> {}", n, hex(f), show(&g)), &c);
                        }
                    }
                }
            }
            let hdr = match framing(f) {
                Framing::Frame { hdr, .. } => hdr,
                _ => unreachable!(),
            };
            // one byte replaced by every value
            for p in 0..f.len() {
                for v in 0..256usize {
                    let mut x = f.clone();
                    x[p] = v as u8;
                    judge(ctx, mode, ver, &x, l);
                    if let Framing::Frame { total, .. } = framing(&x) {
                        if total < x.len() {
                            judge(ctx, mode, ver, &x[..total], l);
                        }
                    }
                }
            }
            // the body cut, extended, a byte removed or inserted, with the frame length corrected
            let body = &f[hdr..];
            for n in 0..body.len() {
                judge(ctx, mode, ver, &frame(f[0], &body[..n]), l);
                let mut x = body.to_vec();
                x.remove(n);
                judge(ctx, mode, ver, &frame(f[0], &x), l);
                let mut x = body.to_vec();
                x.swap(n, (n + 1) % body.len());
                judge(ctx, mode, ver, &frame(f[0], &x), l);
            }
            for n in 0..=body.len() {
                for v in &small {
                    let mut x = body.to_vec();
                    x.insert(n, *v);
                    judge(ctx, mode, ver, &frame(f[0], &x), l);
                }
            }
            for extra in 1..5 {
                for v in [0u8, 1, 0xff] {
                    let mut x = body.to_vec();
                    x.extend(vec![v; extra]);
                    judge(ctx, mode, ver, &frame(f[0], &x), l);
                }
            }
            // two bytes replaced
            let vs: &[u8] = if ctx.thorough { &small } else { &[0, 1, 4, 0x26, 0x80, 0xff] };
            let lim = f.len().min(60);
            for p in 0..lim {
                for q in p + 1..lim {
                    for v in vs {
                        for w in vs {
                            let mut x = f.clone();
                            x[p] = *v;
                            x[q] = *w;
                            judge(ctx, mode, ver, &x, l);
                        }
                    }
                }
            }
        });
    }
}

pub fn c03(ctx: &Ctx) {
    corpus(ctx, Mode::Total);
}

pub fn c04(ctx: &Ctx) {
    corpus(ctx, Mode::Reject);
    catalogue(ctx);
    encoders(ctx);
}

/// Violations that byte mutations of the seeds do not reach: topic filter and string syntax in every position.
fn catalogue(ctx: &Ctx) {
    let st = |x: &str| {
        let mut v = (x.len() as u16).to_be_bytes().to_vec();
        v.extend(x.as_bytes());
        v
    };
    // all topic filters up to length 5 over { a / + # $ }, in SUBSCRIBE (1st and 2nd position); shared forms
    let al = ["a", "/", "+", "#", "$"];
    let maxn = if ctx.thorough { 7 } else { 5 };
    let mut fs: Vec<String> = vec!["".into()];
    let mut cur = vec![String::new()];
    for _ in 0..maxn {
        cur = cur.iter().flat_map(|x| al.iter().map(move |a| format!("{}{}", x, a))).collect();
        fs.extend(cur.iter().cloned());
    }
    let mut shared: Vec<String> = vec!["$share".into(), "$share/".into()];
    for name in ["", "g", "+", "#", "g+", "a#b"] {
        shared.push(format!("$share/{}", name));
        for f in &fs[..fs.len().min(800)] {
            shared.push(format!("$share/{}/{}", name, f));
        }
    }
    fs.extend(shared);
    let n = fs.len();
    ctx.note("filters", n);
    ctx.par(n.div_ceil(50), |i, l| {
        for f in &fs[i * 50..((i + 1) * 50).min(n)] {
            for opt in [0u8, 4] {
                for pos in 0..2 {
                    let mut b = vec![0, 1, 0];
                    if pos == 1 {
                        b.extend(st("ok"));
                        b.push(1);
                    }
                    b.extend(st(f));
                    b.push(opt);
                    judge(ctx, Mode::Reject, 5, &frame(0x82, &b), l);
                    // what is legal must be accepted
                    let fr = frame(0x82, &b);
                    if let Want::Packet(p, n) = want(&fr, 5) {
                        match decode(&fr, 5) {
                            Ok(Got::Packet(q, m)) if p == q && n == m => {}
                            g => {
                                let mut c = vec![5];
                                c.extend(&fr);
                                ctx.fail("legal-filter-refused", format!("{:?} -> {}", f, show(&g)), &c);
                            }
                        }
                    }
                }
            }
            // PUBLISH topics
            if f.len() <= 4 {
                for q in 0..3u8 {
                    let mut b = st(f);
                    if q > 0 {
                        b.extend([0, 1]);
                    }
                    b.push(0);
                    b.push(9);
                    judge(ctx, Mode::Reject, 5, &frame(0x30 | q << 1, &b), l);
                }
            }
        }
    });
    // every shape x every string position: invalid UTF-8, and every property kind in every carrier with overrunning lengths
    let bad_utf8: [&[u8]; 8] = [&[0x80], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xff], &[0xe2, 0x82], &[b'a', 0xfe], &[0xc3]];
    let mut l = Local::new();
    slot_bind(0);
    let bin = |x: &[u8]| {
        let mut v = (x.len() as u16).to_be_bytes().to_vec();
        v.extend(x);
        v
    };
    let mut sb: Vec<Vec<u8>> = bad_utf8.iter().map(|x| x.to_vec()).collect();
    sb.push(b"a\0b".to_vec());
    sb.push(b"\0".to_vec());
    for s in &sb {
        let s = bin(s);
        let cat = |xs: &[&[u8]]| xs.concat();
        let ok = st("ok");
        for ver in [4u8, 5] {
            let pr: &[u8] = if ver == 5 { &[0] } else { &[] };
            let vb = [ver];
            let head = |fl: u8| cat(&[&st("MQTT"), &vb, &[fl], &[0, 9], pr]);
            judge(ctx, Mode::Reject, ver, &frame(0x10, &cat(&[&head(2), &s])), &mut l);
            judge(ctx, Mode::Reject, ver, &frame(0x10, &cat(&[&head(6), &ok, pr, &s, &ok])), &mut l);
            judge(ctx, Mode::Reject, ver, &frame(0x10, &cat(&[&head(0x82), &ok, &s])), &mut l);
            judge(ctx, Mode::Reject, ver, &frame(0x10, &cat(&[&s, &vb, &[2], &[0, 9], pr, &ok])), &mut l);
            for q in 0..3u8 {
                let id: &[u8] = if q > 0 { &[0, 1] } else { &[] };
                judge(ctx, Mode::Reject, ver, &frame(0x30 | q << 1, &cat(&[&s, id, pr, b"x"])), &mut l);
            }
            judge(ctx, Mode::Reject, ver, &frame(0x82, &cat(&[&[0, 1], pr, &s, &[1]])), &mut l);
            judge(ctx, Mode::Reject, ver, &frame(0x82, &cat(&[&[0, 1], pr, &ok, &[1], &s, &[1]])), &mut l);
            judge(ctx, Mode::Reject, ver, &frame(0xa2, &cat(&[&[0, 1], pr, &s])), &mut l);
            judge(ctx, Mode::Reject, ver, &frame(0xa2, &cat(&[&[0, 1], pr, &ok, &s])), &mut l);
        }
        // string-valued properties in one carrier packet each
        for id in [0x03u8, 0x08, 0x12, 0x15, 0x1a, 0x1c, 0x1f] {
            let ps = cat(&[&[id], &s]);
            carriers(id, &ps).into_iter().for_each(|f| judge(ctx, Mode::Reject, 5, &f, &mut l));
        }
        for ps in [cat(&[&[0x26], &s, &ok]), cat(&[&[0x26], &ok, &s])] {
            carriers(0x26, &ps).into_iter().for_each(|f| judge(ctx, Mode::Reject, 5, &f, &mut l));
        }
    }
    // each property kind truncated inside the property section, and unknown identifiers
    for p in alpha::one_of_each() {
        let mut b = vec![];
        enc_prop(&mut b, &p);
        for n in 1..b.len() {
            carriers(prop_id(&p), &b[..n]).into_iter().for_each(|f| judge(ctx, Mode::Reject, 5, &f, &mut l));
        }
    }
    for id in 0..=255u8 {
        if !alpha::one_of_each().iter().any(|p| prop_id(p) == id) {
            for t in 1..=15u8 {
                if let Some(f) = carrier(t, &[id, 0, 0, 0, 0]) {
                    judge(ctx, Mode::Reject, 5, &f, &mut l);
                }
                if let Some(f) = carrier(t, &[id]) {
                    judge(ctx, Mode::Reject, 5, &f, &mut l);
                }
            }
        }
    }
    // the property section's declared length one too long / too short for each carrier
    for t in 1..=15u8 {
        for d in [-2i32, -1, 1, 2, 100] {
            if let Some(f) = carrier_len(t, &[0x26, 0, 1, b'k', 0, 1, b'v'], d) {
                judge(ctx, Mode::Reject, 5, &f, &mut l);
            }
        }
    }
    ctx.merge(l);
    slot_idle();
}
fn carriers(id: u8, ps: &[u8]) -> Vec<Vec<u8>> {
    (1..=15u8).filter(|t| allowed(*t).contains(&id)).filter_map(|t| carrier(t, ps)).collect()
}
fn carrier(t: u8, ps: &[u8]) -> Option<Vec<u8>> {
    carrier_len(t, ps, 0)
}
fn carrier_len(t: u8, ps: &[u8], d: i32) -> Option<Vec<u8>> {
    let n = ps.len() as i32 + d;
    if n < 0 {
        return None;
    }
    let mut p = vbi(n as usize);
    p.extend(ps);
    let cat = |xs: &[&[u8]]| xs.concat();
    Some(match t {
        1 => frame(0x10, &cat(&[b"\0\x04MQTT\x05\x02\0\x09", &p, b"\0\x01c"])),
        2 => frame(0x20, &cat(&[&[0, 0], &p])),
        3 => frame(0x32, &cat(&[b"\0\x01t\0\x01", &p])),
        4 | 5 | 7 => frame(t << 4, &cat(&[&[0, 1, 0], &p])),
        6 => frame(0x62, &cat(&[&[0, 1, 0], &p])),
        8 => frame(0x82, &cat(&[&[0, 1], &p, b"\0\x01t\x01"])),
        9 | 11 => frame(t << 4, &cat(&[&[0, 1], &p, &[0]])),
        10 => frame(0xa2, &cat(&[&[0, 1], &p, b"\0\x01t"])),
        14 => frame(0xe0, &cat(&[&[0], &p])),
        15 => frame(0xf0, &cat(&[&[0x18], &p])),
        _ => return None,
    })
}

/// Encoders given values that no MQTT packet can carry: an error, or bytes that still say the same thing.
fn encoders(ctx: &Ctx) {
    use flowsdk::mqtt_serde::mqttv3::connectv3::Will as Will3;
    use flowsdk::mqtt_serde::mqttv3::*;
    use flowsdk::mqtt_serde::mqttv5::common::properties::Property as Q;
    use flowsdk::mqtt_serde::mqttv5::will::Will;
    use flowsdk::mqtt_serde::mqttv5::*;
    let mut v: Vec<(&str, u8, P)> = vec![];
    let wills = |t: &str, m: Vec<u8>, q: u8, ct: Option<String>, cd: Option<Vec<u8>>, rt: Option<String>| {
        let mut w = Will::new(t.into(), m, q, false);
        w.properties.content_type = ct;
        w.properties.correlation_data = cd;
        w.properties.response_topic = rt;
        w
    };
    for n in [65536usize, 65537, 65539, 131072] {
        let s = alpha::long(n);
        let b = alpha::blob(n);
        v.push(("topic", 5, P::Publish5(publishv5::MqttPublish::new(0, s.clone(), None, vec![], false, false))));
        v.push(("topic", 4, P::Publish3(publishv3::MqttPublish::new(s.clone(), 0, vec![], None, false, false))));
        v.push(("client-id", 5, P::Connect5(connectv5::MqttConnect::new(s.clone(), None, None, None, 1, true, vec![]))));
        v.push(("client-id", 4, P::Connect3(connectv3::MqttConnect::new(s.clone(), 1, true))));
        v.push(("username", 5, P::Connect5(connectv5::MqttConnect::new("c".into(), Some(s.clone()), None, None, 1, true, vec![]))));
        v.push(("password", 5, P::Connect5(connectv5::MqttConnect::new("c".into(), Some("u".into()), Some(b.clone()), None, 1, true, vec![]))));
        for w in [wills(&s, vec![1], 0, None, None, None), wills("w", b.clone(), 0, None, None, None), wills("w", vec![1], 0, Some(s.clone()), None, None), wills("w", vec![1], 0, None, Some(b.clone()), None), wills("w", vec![1], 0, None, None, Some(s.clone()))] {
            v.push(("will", 5, P::Connect5(connectv5::MqttConnect::new("c".into(), None, None, Some(w), 1, true, vec![]))));
        }
        let mut c = connectv3::MqttConnect::new("c".into(), 1, true);
        c.username = Some(s.clone());
        v.push(("username", 4, P::Connect3(c.clone())));
        c.username = Some("u".into());
        c.password = Some(b.clone());
        v.push(("password", 4, P::Connect3(c.clone())));
        c.password = None;
        c.will = Some(Will3 { retain: false, qos: 0, topic: s.clone(), message: vec![1] });
        v.push(("will-topic", 4, P::Connect3(c.clone())));
        c.will = Some(Will3 { retain: false, qos: 0, topic: "w".into(), message: b.clone() });
        v.push(("will-message", 4, P::Connect3(c.clone())));
        v.push(("filter", 5, P::Subscribe5(subscribev5::MqttSubscribe::new(1, vec![subscribev5::TopicSubscription::new_simple(s.clone(), 0)], vec![]))));
        v.push(("filter", 4, P::Subscribe3(subscribev3::MqttSubscribe::new(1, vec![subscribev3::SubscriptionTopic { topic_filter: s.clone(), qos: 0 }]))));
        v.push(("filter", 5, P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(1, vec![s.clone()], vec![]))));
        v.push(("filter", 4, P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(1, vec![s.clone()]))));
        for p in [Q::ContentType(s.clone()), Q::ResponseTopic(s.clone()), Q::CorrelationData(b.clone()), Q::UserProperty(s.clone(), "v".into()), Q::UserProperty("k".into(), s.clone())] {
            v.push(("property", 5, P::Publish5(publishv5::MqttPublish::new_with_prop(0, "t".into(), None, vec![], false, false, vec![p]))));
        }
        for p in [Q::AuthenticationMethod(s.clone()), Q::AuthenticationData(b.clone()), Q::ReasonString(s.clone())] {
            v.push(("property", 5, P::Auth(authv5::MqttAuth::new(0, vec![p]))));
        }
        for p in [Q::AssignedClientIdentifier(s.clone()), Q::ResponseInformation(s.clone()), Q::ServerReference(s.clone())] {
            v.push(("property", 5, P::ConnAck5(connackv5::MqttConnAck::new(false, 0, Some(vec![p])))));
        }
    }
    for id in [268_435_456u32, 268_435_457, u32::MAX] {
        v.push(("subscription-id", 5, P::Subscribe5(subscribev5::MqttSubscribe::new(1, vec![subscribev5::TopicSubscription::new_simple("t".into(), 0)], vec![Q::SubscriptionIdentifier(id)]))));
    }
    for q in 3..=9u8 {
        v.push(("qos", 5, P::Publish5(publishv5::MqttPublish::new(q, "t".into(), Some(1), vec![], false, false))));
        v.push(("qos", 4, P::Publish3(publishv3::MqttPublish::new("t".into(), q, vec![], Some(1), false, false))));
        let mut c = connectv3::MqttConnect::new("c".into(), 1, true);
        c.will = Some(Will3 { retain: false, qos: q, topic: "w".into(), message: vec![1] });
        v.push(("will-qos", 4, P::Connect3(c)));
        v.push(("sub-qos", 5, P::Subscribe5(subscribev5::MqttSubscribe::new(1, vec![subscribev5::TopicSubscription::new_simple("t".into(), q)], vec![]))));
        v.push(("sub-qos", 4, P::Subscribe3(subscribev3::MqttSubscribe::new(1, vec![subscribev3::SubscriptionTopic { topic_filter: "t".into(), qos: q }]))));
    }
    for q in 1..3 {
        v.push(("missing-id", 5, P::Publish5(publishv5::MqttPublish::new(q, "t".into(), None, vec![], false, false))));
        v.push(("missing-id", 4, P::Publish3(publishv3::MqttPublish::new("t".into(), q, vec![], None, false, false))));
    }
    v.push(("zero-id", 5, P::Subscribe5(subscribev5::MqttSubscribe::new(0, vec![subscribev5::TopicSubscription::new_simple("t".into(), 0)], vec![]))));
    v.push(("zero-id", 5, P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(0, vec!["t".into()], vec![]))));
    v.push(("empty-list", 5, P::Subscribe5(subscribev5::MqttSubscribe::new(1, vec![], vec![]))));
    v.push(("empty-list", 5, P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(1, vec![], vec![]))));
    v.push(("empty-list", 5, P::SubAck5(subackv5::MqttSubAck::new(1, vec![], vec![]))));
    v.push(("empty-list", 5, P::UnsubAck5(unsubackv5::MqttUnsubAck::new(1, vec![], vec![]))));
    for s in ["a\0b", "\0"] {
        v.push(("nul", 5, P::Publish5(publishv5::MqttPublish::new(0, s.into(), None, vec![], false, false))));
        v.push(("nul", 5, P::Connect5(connectv5::MqttConnect::new(s.into(), None, None, None, 1, true, vec![]))));
        v.push(("nul", 4, P::Publish3(publishv3::MqttPublish::new(s.into(), 0, vec![], None, false, false))));
        v.push(("nul", 5, P::Subscribe5(subscribev5::MqttSubscribe::new(1, vec![subscribev5::TopicSubscription::new_simple(s.into(), 0)], vec![]))));
    }
    ctx.note("unencodable_packets", v.len());
    ctx.par(v.len(), |i, l| {
        let (what, ver, p) = &v[i];
        let mut c = vec![0xEE, i as u8, (i >> 8) as u8];
        c.extend(what.as_bytes());
        case(&c);
        l.evals += 1;
        l.outcome(&(what, ver, i));
        match guard(|| p.to_bytes()) {
            Ok(Err(_)) => {}
            Err(e) => ctx.fail(&format!("encode-panic v{} {} {}", ver, tname(p), what), e, &c),
            Ok(Ok(b)) => {
                let ok = matches!(want(&b, *ver), Want::Packet(q, n) if q == *p && n == b.len());
                if !ok {
                    ctx.fail(&format!("encoder-accepts v{} {} {}", ver, tname(p), what), format!("emitted {}", hex(&b[..b.len().min(40)])), &c);
                }
            }
        }
    });
}
pub fn c03_replay(ctx: &Ctx, c: &[u8]) {
    judge(ctx, Mode::Total, c[0], &c[1..], &mut Local::new());
    let f = &c[1..];
    if !f.is_empty() && framing(f) == Framing::Incomplete {
        println!("prefix -> {}", show(&decode(f, c[0])));
    }
}
pub fn c04_replay(ctx: &Ctx, c: &[u8]) {
    if c[0] == 0xEE {
        encoders(ctx);
    } else {
        judge(ctx, Mode::Reject, c[0], &c[1..], &mut Local::new());
    }
}
