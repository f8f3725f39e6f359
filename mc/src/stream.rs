//! C05: chunking independence of MqttParser, MqttStream and MqttEngine::handle_incoming.
//! C06: agreement of the parse levels.
use crate::alpha;
use crate::codec::{decode, Got};
use crate::env;
use crate::fw::*;
use crate::refcodec::*;
use flowsdk::mqtt_client::engine::MqttEngine;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::parser::leveled::*;
use flowsdk::mqtt_serde::parser::stream::{MqttParser, MqttStream};
use flowsdk::mqtt_serde::parser::ParseError;
use std::io::{Error, ErrorKind, Read};

/// A stream: whole frames with the packet each must yield; None marks a malformed frame (the stream ends there).
struct Stream {
    ver: u8,
    bytes: Vec<u8>,
    /// (end offset, packet); a malformed frame has None
    frames: Vec<(usize, Option<P>)>,
}
fn build(ver: u8, fs: &[(Vec<u8>, Option<P>)]) -> Stream {
    let mut s = Stream { ver, bytes: vec![], frames: vec![] };
    for (b, p) in fs {
        s.bytes.extend(b);
        s.frames.push((s.bytes.len(), p.clone()));
    }
    s
}

/// A case: version, mode, number of cuts, cuts (u32 each), stream bytes.
fn ccase(ver: u8, mode: u8, cuts: &[usize], b: &[u8]) -> Vec<u8> {
    let mut c = vec![ver, mode, cuts.len().min(255) as u8];
    for x in cuts.iter().take(255) {
        c.extend((*x as u32).to_be_bytes());
    }
    c.extend(b);
    c
}

/// Checks what has been delivered after the first `fed` bytes.
struct Judge<'a> {
    s: &'a Stream,
    next: usize,
    errored: bool,
}
impl<'a> Judge<'a> {
    fn new(s: &'a Stream) -> Self {
        Judge { s, next: 0, errored: false }
    }
    fn packet(&mut self, p: &P, fed: usize) -> Result<(), String> {
        if self.errored {
            return Err("packet after a parse error".into());
        }
        match self.s.frames.get(self.next) {
            Some((end, Some(q))) if *end <= fed => {
                if p != q {
                    return Err(format!("wrong packet {:?} expected {:?}", p, q));
                }
                self.next += 1;
                Ok(())
            }
            o => Err(format!("unexpected packet {:?} after {} bytes, next frame {:?}", p, fed, o.map(|x| x.0))),
        }
    }
    /// An error is due only in a malformed frame, once the frames before it were delivered.
    fn error(&mut self, e: String, fed: usize) -> Result<(), String> {
        let start = if self.next == 0 { 0 } else { self.s.frames[self.next - 1].0 };
        match self.s.frames.get(self.next) {
            Some((_, None)) if fed > start => {
                self.errored = true;
                Ok(())
            }
            _ => Err(format!("error for well-formed input: {} after {} bytes", sigify(&e), fed)),
        }
    }
    /// After polling to exhaustion nothing complete may be left undelivered.
    fn settled(&self, fed: usize) -> Result<(), String> {
        if self.errored {
            return Ok(());
        }
        match self.s.frames.get(self.next) {
            Some((end, Some(_))) if *end <= fed => Err("complete packet not delivered".into()),
            Some((end, None)) if *end <= fed => Err("malformed frame not reported".into()),
            _ => Ok(()),
        }
    }
}

fn kind(e: &str) -> String {
    sigify(e).chars().take(60).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Api {
    Next,
    ParsedFull,
    LatePoll,
    Reader,
    ReaderErr,
}
const APIS: [Api; 5] = [Api::Next, Api::ParsedFull, Api::LatePoll, Api::Reader, Api::ReaderErr];

struct Script<'a> {
    pieces: Vec<&'a [u8]>,
    i: usize,
    off: usize,
    errs: bool,
    err_done: bool,
    fed: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Read for Script<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.errs && !self.err_done {
            self.err_done = true;
            return Err(Error::from(if self.i % 2 == 0 { ErrorKind::WouldBlock } else { ErrorKind::TimedOut }));
        }
        let Some(p) = self.pieces.get(self.i) else { return Ok(0) };
        let n = (p.len() - self.off).min(b.len());
        b[..n].copy_from_slice(&p[self.off..self.off + n]);
        self.off += n;
        self.fed.set(self.fed.get() + n);
        if self.off == p.len() {
            self.i += 1;
            self.off = 0;
            self.err_done = false;
        }
        Ok(n)
    }
}

fn pieces<'a>(b: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut a = 0;
    for c in cuts.iter().chain([&b.len()]) {
        if *c > a {
            v.push(&b[a..*c]);
            a = *c;
        }
    }
    v
}

fn deliver(api: Api, s: &Stream, cuts: &[usize]) -> Result<(), String> {
    let ps = pieces(&s.bytes, cuts);
    let mut j = Judge::new(s);
    let mut fed = 0;
    match api {
        Api::Next | Api::ParsedFull | Api::LatePoll => {
            let mut p = MqttParser::new(if s.bytes.len() % 2 == 0 { 16384 } else { 0 }, s.ver);
            for (i, x) in ps.iter().enumerate() {
                p.feed(x);
                fed += x.len();
                if api == Api::LatePoll && i + 1 < ps.len() {
                    continue;
                }
                loop {
                    let r = if api == Api::ParsedFull {
                        p.next_parsed().map(|o| {
                            o.map(|x| match x {
                                ParsedPacket::Full(p) => p,
                                _ => P::PingReq3(Default::default()),
                            })
                        })
                    } else {
                        p.next_packet()
                    };
                    match r {
                        Ok(Some(q)) => j.packet(&q, fed)?,
                        Ok(None) => break,
                        Err(e) => {
                            j.error(format!("{:?}", e), fed)?;
                            break;
                        }
                    }
                }
                j.settled(fed)?;
            }
        }
        Api::Reader | Api::ReaderErr => {
            let fc = std::rc::Rc::new(std::cell::Cell::new(0));
            let sc = Script { pieces: ps, i: 0, off: 0, errs: api == Api::ReaderErr, err_done: false, fed: fc.clone() };
            let mut st = MqttStream::new(sc, 16384, s.ver);
            let mut ios = 0;
            loop {
                let r = st.next();
                fed = fc.get();
                match r {
                    Some(Ok(q)) => j.packet(&q, fed)?,
                    Some(Err(ParseError::IoError(_))) => {
                        j.settled(fed)?;
                        ios += 1;
                        if api != Api::ReaderErr || ios > 3 * cuts.len() + 10 {
                            return Err("unexpected I/O error".into());
                        }
                    }
                    Some(Err(e)) => {
                        j.error(format!("{:?}", e), fed)?;
                        return Ok(());
                    }
                    None => break,
                }
            }
            if fed != s.bytes.len() {
                return Err("iterator ended before the stream".into());
            }
            j.settled(fed)?;
        }
    }
    let _ = fed;
    Ok(())
}

fn try_stream(ctx: &Ctx, s: &Stream, cuts: &[usize], l: &mut Local) {
    for (ai, api) in APIS.iter().enumerate() {
        let c = ccase(s.ver, ai as u8, cuts, &s.bytes[..s.bytes.len().min(3000)]);
        case(&c);
        l.evals += 1;
        l.steps += cuts.len() as u64 + 1;
        let r = guard(|| deliver(*api, s, cuts)).unwrap_or_else(|p| Err(format!("panic {}", p)));
        if let Err(e) = r {
            ctx.fail(&format!("{:?} v{} {}", api, s.ver, kind(&e)), format!("cuts {:?} of {}: {}", cuts, hex(&s.bytes), e), &c);
        }
    }
    l.outcome(&(s.ver, hash(&s.bytes), cuts));
}

/// One malformed frame of each (type, rule) reached by single-byte changes of the seeds.
fn malformed(ver: u8) -> Vec<Vec<u8>> {
    let mut seen = std::collections::BTreeMap::new();
    for p in alpha::shapes(ver) {
        let f = refenc(&p);
        if f.len() > 60 {
            continue;
        }
        for i in 0..f.len() {
            for v in [0u8, 1, 2, 3, 4, 6, 0x1f, 0x80, 0xc0, 0xc3, 0xff].into_iter().chain([f[i] ^ 1, f[i] ^ 2, f[i] ^ 8, f[i].wrapping_add(1), f[i].wrapping_sub(1)]) {
                let mut x = f.clone();
                x[i] = v;
                if let Framing::Frame { total, .. } = framing(&x) {
                    let x = x[..total].to_vec();
                    if let Want::Reject(r, Some(_)) = want(&x, ver) {
                        if !r.ends_with('*') {
                            seen.entry((x[0] >> 4, r)).or_insert(x);
                        }
                    }
                }
            }
        }
    }
    seen.into_values().collect()
}

pub fn c05(ctx: &Ctx) {
    for ver in [4u8, 5] {
        let sh: Vec<(Vec<u8>, Option<P>)> = alpha::shapes(ver).into_iter().map(|p| (refenc(&p), Some(p))).collect();
        let bad = malformed(ver);
        ctx.note(&format!("malformed_frames_v{}", ver), bad.len());
        let n = sh.len();
        let ends: Vec<usize> = (0..n).step_by(if ctx.thorough { 1 } else { 4 }).collect();
        // pairs of any two shapes (third one appended from a subset), every 1- and 2-cut and byte by byte
        ctx.par(n * n, |k, l| {
            let (a, b) = (k / n, k % n);
            let mut todo = vec![build(ver, &[sh[a].clone(), sh[b].clone()])];
            if b == (a + 1) % n || ctx.thorough {
                for e in &ends {
                    todo.push(build(ver, &[sh[a].clone(), sh[b].clone(), sh[*e].clone()]));
                }
            }
            for s in &todo {
                let m = s.bytes.len();
                for i in 0..=m {
                    try_stream(ctx, s, &[i], l);
                }
                let big = m > 80;
                let lim = if ctx.thorough { 80 } else { 40 };
                if (!big && (ctx.thorough || s.frames.len() == 2)) || m <= 14 {
                    for i in 1..m.min(lim) {
                        for j in i + 1..m {
                            try_stream(ctx, s, &[i, j], l);
                        }
                    }
                }
                for step in [1usize, 2, 3, 5] {
                    try_stream(ctx, s, &(1..m).step_by(step).collect::<Vec<_>>(), l);
                }
            }
        });
        // a malformed frame after 0, 1 or 2 good ones and before another good one
        ctx.par(bad.len(), |k, l| {
            let f = (bad[k].clone(), None);
            let mut v = vec![build(ver, &[f.clone(), sh[2].clone()])];
            for a in 0..n {
                v.push(build(ver, &[sh[a].clone(), f.clone(), sh[(a + k) % n].clone()]));
            }
            v.push(build(ver, &[sh[3].clone(), sh[4].clone(), f.clone(), sh[0].clone()]));
            for s in &v {
                let m = s.bytes.len();
                for i in 0..=m {
                    try_stream(ctx, s, &[i], l);
                }
                if m <= if ctx.thorough { 40 } else { 24 } {
                    for i in 1..m {
                        for j in i + 1..m {
                            try_stream(ctx, s, &[i, j], l);
                        }
                    }
                }
                try_stream(ctx, s, &(1..m).collect::<Vec<_>>(), l);
            }
        });
        // packets around the internal buffer sizes and the length-field boundaries
        let sizes = [120usize, 123, 124, 125, 126, 127, 128, 1000, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2040, 2047, 2048, 2049, 4096, 16376, 16377, 16378, 16379, 16380, 16381, 16384, 16385, 20000, 40000];
        let steps = [1usize, 7, 127, 128, 129, 1023, 1024, 1025, 4096, 16384];
        ctx.par(sizes.len() * steps.len(), |k, l| {
            let (z, st) = (sizes[k / steps.len()], steps[k % steps.len()]);
            if st == 1 && z > 21000 {
                return;
            }
            let p = if ver == 5 {
                P::Publish5(flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish::new(1, "t".into(), Some(9), alpha::blob(z), false, false))
            } else {
                P::Publish3(flowsdk::mqtt_serde::mqttv3::publishv3::MqttPublish::new("t".into(), 1, alpha::blob(z), Some(9), false, false))
            };
            let f = (refenc(&p), Some(p));
            let s = build(ver, &[f.clone(), sh[4].clone(), f, sh[2].clone()]);
            let m = s.bytes.len();
            for off in [0usize, 1, 2] {
                try_stream(ctx, &s, &(st.min(m)..m).step_by(st).map(|x| (x + off).min(m)).collect::<Vec<_>>(), l);
            }
        });
        engine(ctx, ver);
        detect(ctx, ver);
    }
    // one very large packet in small reads, on an ordinary thread stack
    let z = 24 << 20;
    ctx.par(1, |_, l| {
        case(&[0xfb]);
        l.evals += 1;
        if let Err(e) = huge(z) {
            ctx.fail("large packet in small reads", e, &[0xfb]);
        }
    });
}

fn huge(z: usize) -> Result<(), String> {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let p = P::Publish5(flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish::new(0, "t".into(), None, vec![7; z], false, false));
            let s = build(5, &[(refenc(&p), Some(p))]);
            deliver(Api::Reader, &s, &[])
        })
        .unwrap()
        .join()
        .map_err(|_| "thread died".to_string())?
}

/// The client engine must show the same events and output for every chunking.
fn engine(ctx: &Ctx, ver: u8) {
    let fs: Vec<Vec<u8>> = alpha::shapes(ver).iter().map(refenc).collect();
    let mut fs: Vec<Vec<u8>> = fs.into_iter().filter(|f| !matches!(f[0] >> 4, 1 | 2 | 8 | 10 | 12 | 14)).collect();
    fs.push(vec![0x30, 0x80, 0x00]); // malformed length
    fs.push(vec![0x36, 3, 0, 1, b't']); // QoS 3
    let n = fs.len();
    ctx.par(n * n, |k, l| {
        let mut s = fs[k / n].clone();
        s.extend(&fs[k % n]);
        let c = ccase(ver, 100, &[], &s);
        let whole = match guard(|| run_engine(ver, &s, &[])) {
            Ok(w) => w,
            Err(e) => {
                ctx.fail(&format!("engine panic v{} {}", ver, kind(&e)), e, &c);
                return;
            }
        };
        l.outcome(&whole);
        let m = s.len();
        let mut cutsets: Vec<Vec<usize>> = (1..m).map(|i| vec![i]).collect();
        cutsets.push((1..m).collect());
        if ctx.thorough || m < 16 {
            for i in 1..m {
                for j in i + 1..m {
                    cutsets.push(vec![i, j]);
                }
            }
        }
        for cuts in cutsets {
            let c = ccase(ver, 100, &cuts, &s);
            case(&c);
            l.evals += 1;
            l.steps += cuts.len() as u64 + 1;
            match guard(|| run_engine(ver, &s, &cuts)) {
                Ok(w) if w == whole => {}
                Ok(w) => ctx.fail(&format!("engine v{} depends on chunking", ver), format!("stream {} cuts {:?}: {} instead of {}", hex(&s), cuts, w, whole), &c),
                Err(e) => ctx.fail(&format!("engine panic v{} {}", ver, kind(&e)), e, &c),
            }
        }
    });
}
fn run_engine(ver: u8, s: &[u8], cuts: &[usize]) -> String {
    env::vclock_on();
    let o = MqttClientOptions::builder().peer("h:1").client_id("c").mqtt_version(ver).keep_alive(0).build();
    let mut e = MqttEngine::new(o);
    e.connect();
    let mut out = e.take_outgoing();
    e.handle_incoming(if ver == 5 { &[0x20, 3, 0, 0, 0] } else { &[0x20, 2, 0, 0] });
    let mut evs = String::new();
    // after a connection error the rest of the stream is the driver's business: compare up to the first error event
    let mut dead = false;
    for p in pieces(s, cuts) {
        let v = e.handle_incoming(p);
        for x in v.iter().chain(e.take_events().iter()) {
            let x = format!("{:?}", x);
            if !dead {
                evs.push_str(&x);
                evs.push(';');
            }
            dead |= x.starts_with("Error");
        }
        if !dead {
            out.extend(e.take_outgoing());
        }
    }
    env::vclock_off();
    if dead {
        // output produced in the same call as the error may or may not have been collected before it
        out.clear();
    }
    format!("{} | {}", evs, hex(&out))
}

/// Version detection on every prefix of every CONNECT: the version, or an error that more bytes cure.
fn detect(ctx: &Ctx, ver: u8) {
    let fs: Vec<Vec<u8>> = alpha::shapes(ver).iter().map(refenc).filter(|f| f[0] == 0x10).collect();
    let mut l = Local::new();
    for f in fs {
        let need = 2 + 6 + 1;
        for n in 0..=f.len() {
            let c = ccase(ver, 101, &[n], &f);
            case(&c);
            l.evals += 1;
            let r = guard(|| {
                let mut p = MqttParser::new(64, 0);
                p.feed(&f[..n]);
                let first = p.set_mqtt_vsn(0);
                p.feed(&f[n..]);
                (first, p.set_mqtt_vsn(0), p.next_packet())
            });
            let ok = match &r {
                Ok((a, Ok(b), Ok(Some(q)))) => *b == ver && Want::Packet(q.clone(), f.len()) == want(&f, ver) && match a {
                    Ok(v) => *v == ver && n >= need,
                    Err(ParseError::More(..) | ParseError::BufferTooShort | ParseError::BufferEmpty) => n < need,
                    _ => false,
                },
                _ => false,
            };
            if !ok {
                ctx.fail(&format!("version detection v{}", ver), format!("prefix of {} bytes of {} -> {:?}", n, hex(&f), r), &c);
            }
        }
    }
    ctx.merge(l);
}

pub fn c05_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    if c[0] == 0xfb {
        if let Err(e) = huge(24 << 20) {
            ctx.fail("large packet in small reads", e, c);
        }
        return;
    }
    let ver = c[0];
    let k = c[2] as usize;
    let cuts: Vec<usize> = (0..k).map(|i| u32::from_be_bytes(c[3 + 4 * i..7 + 4 * i].try_into().unwrap()) as usize).collect();
    let b = &c[3 + 4 * k..];
    if c[1] == 101 {
        return detect(ctx, ver);
    }
    if c[1] == 100 {
        let (a, b2) = (guard(|| run_engine(ver, b, &[])), guard(|| run_engine(ver, b, &cuts)));
        if a != b2 || a.is_err() {
            ctx.fail("engine", format!("whole {:?}\nchunked {:?}", a, b2), c);
        }
        return;
    }
    let mut fs = vec![];
    let mut i = 0;
    while let Framing::Frame { total, .. } = framing(&b[i..]) {
        let f = b[i..i + total].to_vec();
        let p = match want(&f, ver) {
            Want::Packet(p, _) => Some(p),
            _ => None,
        };
        fs.push((f, p));
        i += total;
    }
    if i < b.len() {
        fs.push((b[i..].to_vec(), None));
    }
    try_stream(ctx, &build(ver, &fs), &cuts, &mut l);
}

// ------------------------------------------------------------------ C06
/// Runs a level over a stream; returns the items it delivered.
fn run_level(ver: u8, lv: ParseLevel, b: &[u8], cuts: &[usize]) -> Vec<Result<ParsedPacket, String>> {
    let mut p = MqttParser::with_level(256, ver, lv);
    let mut v = vec![];
    for x in pieces(b, cuts) {
        p.feed(x);
        loop {
            match p.next_parsed() {
                Ok(Some(q)) => v.push(Ok(q)),
                Ok(None) => break,
                Err(e) => {
                    v.push(Err(format!("{:?}", e)));
                    return v;
                }
            }
        }
    }
    v
}

/// Compares one delivered item with the frame it must stand for.  `full` is what full parsing says (reference).
fn item(ver: u8, lv: ParseLevel, f: &[u8], got: &Result<ParsedPacket, String>) -> Result<(), String> {
    let Framing::Frame { hdr, total } = framing(f) else { return Err("harness: not a frame".into()) };
    assert!(total == f.len());
    let w = want(f, ver);
    let legal_type = f[0] >> 4 != 0;
    match got {
        Err(e) => {
            let ok = match (&w, lv) {
                (Want::Packet(..), _) => false,
                // malformed frames may be errors at the level that looks inside them
                (_, ParseLevel::TypeOnly | ParseLevel::RawBody) => !legal_type,
                _ => true,
            };
            if ok { Ok(()) } else { Err(format!("error {} for a frame that {}", sigify(e), if matches!(w, Want::Packet(..)) { "is well-formed" } else { "has a valid fixed header" })) }
        }
        Ok(q) => {
            if q.packet_type() as u8 != f[0] >> 4 {
                return Err("wrong packet type".into());
            }
            match (lv, q) {
                (ParseLevel::TypeOnly, ParsedPacket::TypeOnly(t)) => {
                    if t.flags != f[0] & 15 {
                        return Err("wrong flags".into());
                    }
                }
                (ParseLevel::RawBody, ParsedPacket::RawBody(t)) => {
                    if t.flags != f[0] & 15 {
                        return Err("wrong flags".into());
                    }
                    if t.remaining[..] != f[hdr..] {
                        return Err("wrong body bytes".into());
                    }
                }
                (ParseLevel::HeadersParsed, ParsedPacket::HeadersParsed(t)) => {
                    if t.flags != f[0] & 15 {
                        return Err("wrong flags".into());
                    }
                    if t.mqtt_version != ver {
                        return Err("wrong version".into());
                    }
                    match refhdr(f, hdr, ver) {
                        Ok((vh, off)) => {
                            let (a, b) = (format!("{:?}", t.variable_header), format!("{:?}", vh));
                            if a != b {
                                return Err(format!("wrong variable header {} expected {}", a, b));
                            }
                            if t.raw_payload[..] != f[off..] {
                                return Err(format!("wrong payload {} expected {}", hex(&t.raw_payload), hex(&f[off..])));
                            }
                        }
                        Err(r) => return Err(format!("accepted a variable header that violates {}", r.0)),
                    }
                }
                (ParseLevel::Full, ParsedPacket::Full(p)) => match &w {
                    Want::Packet(x, _) if x == p => {}
                    Want::Packet(x, _) => return Err(format!("wrong packet {:?} expected {:?}", p, x)),
                    Want::Reject(r, _) if r.ends_with('*') => {}
                    _ => return Err("full level accepted a malformed frame".into()),
                },
                _ => return Err("wrong variant".into()),
            }
            Ok(())
        }
    }
}
const LEVELS: [ParseLevel; 4] = [ParseLevel::Full, ParseLevel::HeadersParsed, ParseLevel::RawBody, ParseLevel::TypeOnly];

fn frame_levels(ctx: &Ctx, ver: u8, f: &[u8], l: &mut Local) {
    let mut c = [0u8; 600];
    let n = f.len().min(598);
    c[0] = ver;
    c[1] = 0;
    c[2..2 + n].copy_from_slice(&f[..n]);
    let c = &c[..2 + n];
    case(c);
    for lv in LEVELS {
        l.evals += 1;
        l.steps += 2;
        let ping: &[u8] = &[0xd0, 0];
        let mut b = f.to_vec();
        b.extend(ping);
        let r = guard(|| {
            let v = run_level(ver, lv, &b, &[]);
            if v.is_empty() {
                return Err("nothing delivered for a complete frame".to_string());
            }
            item(ver, lv, f, &v[0])?;
            if v[0].is_ok() {
                // the next frame must start right after this one
                if v.len() != 2 {
                    return Err(format!("{} items for two frames", v.len()));
                }
                item(ver, lv, ping, &v[1]).map_err(|e| format!("following frame: {}", e))?;
            }
            // the frame alone, and every proper prefix of a short one
            let a = run_level(ver, lv, f, &[]);
            if a.len() != 1 || a[0].is_ok() != v[0].is_ok() {
                return Err("result depends on the bytes after the frame".into());
            }
            Ok(())
        });
        let e = match r {
            Ok(Ok(())) => continue,
            Ok(Err(e)) => e,
            Err(p) => format!("panic {}", p),
        };
        ctx.fail(&format!("{:?} v{} type{} {}", lv, ver, f[0] >> 4, kind(&e)), format!("frame {}: {}", hex(f), e), c);
    }
    l.outcome(&(ver, hash(f)));
}
fn prefix_levels(ctx: &Ctx, ver: u8, f: &[u8], l: &mut Local) {
    for n in 0..f.len() {
        let mut c = vec![ver, 1];
        c.extend(&f[..n.min(500)]);
        case(&c);
        for lv in LEVELS {
            l.evals += 1;
            let r = guard(|| run_level(ver, lv, &f[..n], &[]).len());
            if r != Ok(0) {
                ctx.fail(&format!("{:?} v{} type{} prefix", lv, ver, f[0] >> 4), format!("{} of {} bytes of {} -> {:?}", n, f.len(), hex(f), r), &c);
            }
            // the direct functions report how much is missing
            let r = guard(|| match lv {
                ParseLevel::TypeOnly => Some(parse_type_only(&f[..n])),
                ParseLevel::RawBody => Some(parse_raw_body(bytes::Bytes::copy_from_slice(&f[..n]))),
                ParseLevel::HeadersParsed => Some(parse_headers_only(bytes::Bytes::copy_from_slice(&f[..n]), ver)),
                _ => None,
            });
            let ok = match r {
                Ok(None) => true,
                Ok(Some(Ok(LeveledParseOk::Continue(h, k)))) => h > 0 && k == 0 && n + h <= f.len(),
                Ok(Some(Err(ParseError::BufferEmpty))) => n == 0,
                _ => false,
            };
            if !ok {
                ctx.fail(&format!("{:?} v{} type{} direct prefix", lv, ver, f[0] >> 4), format!("{} of {} bytes of {}", n, f.len(), hex(f)), &c);
            }
        }
    }
}

pub fn c06(ctx: &Ctx) {
    for ver in [4u8, 5] {
        let all = if ver == 5 { alpha::packets5(ctx.thorough) } else { alpha::packets3(ctx.thorough) };
        ctx.note(&format!("packets_v{}", ver), all.len());
        ctx.par(all.len().div_ceil(32), |i, l| {
            for p in &all[i * 32..((i + 1) * 32).min(all.len())] {
                let f = refenc(p);
                frame_levels(ctx, ver, &f, l);
                if f.len() < 90 && hash(&f) % 8 == 0 {
                    prefix_levels(ctx, ver, &f, l);
                }
            }
        });
        let seeds: Vec<Vec<u8>> = alpha::shapes(ver).iter().map(refenc).collect();
        let n = seeds.len();
        ctx.par(n, |i, l| {
            let f = &seeds[i];
            prefix_levels(ctx, ver, f, l);
            let Framing::Frame { hdr, .. } = framing(f) else { return };
            for p in 0..f.len() {
                for v in 0..256usize {
                    let mut x = f.clone();
                    x[p] = v as u8;
                    if let Framing::Frame { total, .. } = framing(&x) {
                        frame_levels(ctx, ver, &x[..total], l);
                    }
                }
            }
            for k in 0..=f.len() - hdr {
                let mut x = f[hdr..].to_vec();
                frame_levels(ctx, ver, &frame(f[0], &x[..k]), l);
                x.insert(k, 0);
                frame_levels(ctx, ver, &frame(f[0], &x), l);
                if ctx.thorough {
                    for q in k + 1..f.len() - hdr {
                        for v in [0u8, 1, 2, 0x80, 0xff] {
                            for w in [0u8, 1, 2, 0x80, 0xff] {
                                let mut x = f.clone();
                                x[hdr + k] = v;
                                x[hdr + q] = w;
                                frame_levels(ctx, ver, &x, l);
                            }
                        }
                    }
                }
            }
            // three-frame streams cut in two anywhere: same frames at every level
            for j in 0..n {
                let mut b = f.clone();
                b.extend(&seeds[j]);
                b.extend(&seeds[(i * 5 + j) % n]);
                let fr = [f, &seeds[j], &seeds[(i * 5 + j) % n]];
                for cut in (0..b.len()).map(|c| vec![c]).chain([(1..b.len()).collect()]) {
                    let c = ccase(ver, 2, &cut[..cut.len().min(1)], &b);
                    case(&c);
                    for lv in LEVELS {
                        l.evals += 1;
                        l.steps += 3;
                        let r = guard(|| {
                            let v = run_level(ver, lv, &b, &cut);
                            if v.len() != 3 {
                                return Err(format!("{} items for three frames", v.len()));
                            }
                            for k in 0..3 {
                                item(ver, lv, fr[k], &v[k])?;
                            }
                            Ok(())
                        })
                        .unwrap_or_else(|p| Err(format!("panic {}", p)));
                        if let Err(e) = r {
                            ctx.fail(&format!("stream {:?} v{} {}", lv, ver, kind(&e)), format!("{} cut {:?}: {}", hex(&b), cut, e), &c);
                        }
                    }
                }
            }
        });
        // all short frames: every first byte, bodies up to 3 (thorough 4) bytes over a structural alphabet
        let s: &[u8] = &[0, 1, 2, 3, 4, 0x26, 0x80, 0xff];
        ctx.par(256, |a, l| {
            let max = if ctx.thorough { 5 } else { 4 };
            for n in 0..=max {
                for k in 0..s.len().pow(n as u32) {
                    let mut v = vec![a as u8, n as u8];
                    let mut k = k;
                    for _ in 0..n {
                        v.push(s[k % s.len()]);
                        k /= s.len();
                    }
                    frame_levels(ctx, ver, &v, l);
                }
            }
        });
    }
    let _ = |b: &[u8]| matches!(decode(b, 5), Ok(Got::NeedMore));
}
pub fn c06_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    match c[1] {
        0 => frame_levels(ctx, c[0], &c[2..], &mut l),
        1 => {
            for lv in LEVELS {
                let r = guard(|| run_level(c[0], lv, &c[2..], &[]).len());
                if r != Ok(0) {
                    ctx.fail(&format!("{:?} prefix", lv), format!("{:?}", r), c);
                }
            }
        }
        _ => {
            let k = c[2] as usize;
            let b = &c[3 + 4 * k..];
            for lv in LEVELS {
                println!("{:?}: {:?}", lv, guard(|| run_level(c[0], lv, b, &(1..b.len()).collect::<Vec<_>>())));
            }
            let mut i = 0;
            while let Framing::Frame { total, .. } = framing(&b[i..]) {
                frame_levels(ctx, c[0], &b[i..i + total], &mut l);
                i += total;
            }
        }
    }
}
