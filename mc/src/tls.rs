//! X02: the TLS client against a real TLS server in memory, next to the plain client given the same plaintext.
use crate::env;
use crate::ffi::{spec, specs, vals};
use crate::fw::*;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::{ClientConfig, RootCertStore, ServerConfig, ServerConnection};
use serde_json::Value;
use std::io::{Read, Write};
use std::sync::{Arc, OnceLock};
use std::time::Instant;

pub const CA: &[u8] = include_bytes!("../certs/ca.pem");
const CERT: &[u8] = include_bytes!("../certs/server.pem");
const KEY: &[u8] = include_bytes!("../certs/server.key");

fn provider() -> Arc<rustls::crypto::CryptoProvider> {
    Arc::new(rustls::crypto::ring::default_provider())
}
pub fn server_cfg(cert: &[u8], key: &[u8], alpn: &[&[u8]]) -> Arc<ServerConfig> {
    let certs: Vec<CertificateDer<'static>> = CertificateDer::pem_slice_iter(cert).map(|c| c.unwrap()).collect();
    let key = PrivateKeyDer::from_pem_slice(key).unwrap();
    let mut c = ServerConfig::builder_with_provider(provider()).with_safe_default_protocol_versions().unwrap().with_no_client_auth().with_single_cert(certs, key).unwrap();
    c.alpn_protocols = alpn.iter().map(|x| x.to_vec()).collect();
    Arc::new(c)
}
pub fn client_cfg(ca: &[u8], v12: bool) -> ClientConfig {
    let mut r = RootCertStore::empty();
    for c in CertificateDer::pem_slice_iter(ca) {
        r.add(c.unwrap()).unwrap();
    }
    let b = ClientConfig::builder_with_provider(provider());
    let b = if v12 { b.with_protocol_versions(&[&rustls::version::TLS12]).unwrap() } else { b.with_safe_default_protocol_versions().unwrap() };
    b.with_root_certificates(r).with_no_client_auth()
}
fn configs() -> &'static (Arc<ServerConfig>, Arc<ClientConfig>, Arc<ClientConfig>) {
    static C: OnceLock<(Arc<ServerConfig>, Arc<ClientConfig>, Arc<ClientConfig>)> = OnceLock::new();
    C.get_or_init(|| {
        let mut a = client_cfg(CA, false);
        let mut b = client_cfg(CA, true);
        // every handshake is a full one
        a.resumption = rustls::client::Resumption::disabled();
        b.resumption = rustls::client::Resumption::disabled();
        (server_cfg(CERT, KEY, &[]), Arc::new(a), Arc::new(b))
    })
}

const MARK: &[u8] = b"only-for-the-peer's-eyes";
fn payload(n: usize) -> Vec<u8> {
    MARK.iter().cycle().take(n).copied().collect()
}
fn message(n: usize, q: u8) -> Vec<u8> {
    let mut b = vec![0, 1, b't'];
    if q > 0 {
        b.extend([0, 9]);
    }
    b.push(0);
    b.extend(payload(n));
    crate::refcodec::frame(0x30 | q << 1, &b)
}

struct W {
    c: Option<TlsMqttEngine>,
    f: Option<flowsdk_ffi::engine::TlsMqttEngineFFI>,
    s: ServerConnection,
    r: MqttEngine,
    down: Vec<u8>,    // ciphertext on its way to the client
    fed: usize,       // ciphertext bytes delivered so far
    said: Vec<u8>,    // plaintext the server has written and not sent, the handshake not being over
    under: Vec<u8>,   // plaintext under way
    plain: Vec<u8>,   // plaintext that has arrived and the plain client has not seen
    closed: bool,
    begun: bool,
    want: Vec<Value>, // events of the plain client
    got: Vec<Value>,
    sent: Vec<u8>, // plaintext of the plain client
    recv: Vec<u8>, // plaintext the server decrypted
    err: bool,
    n: usize,
}

fn opts() -> MqttClientOptions {
    MqttClientOptions::builder().client_id("tls").keep_alive(20).build()
}
/// The client under test keeps few events at once; it may be late, but must not lose any.
fn few() -> MqttClientOptions {
    MqttClientOptions::builder().client_id("tls").keep_alive(20).max_event_count(20).build()
}

impl W {
    fn new(v12: bool) -> W {
        env::vclock_off();
        env::vclock_on();
        env::rng_seed(0x5eed);
        let (sc, c13, c12) = configs();
        let mut s = ServerConnection::new(sc.clone()).unwrap();
        s.set_buffer_limit(None);
        W {
            c: Some(TlsMqttEngine::new(few(), "localhost", if v12 { c12.clone() } else { c13.clone() }).unwrap()),
            f: None,
            s,
            r: MqttEngine::new(opts()),
            down: vec![],
            fed: 0,
            said: vec![],
            under: vec![],
            plain: vec![],
            closed: false,
            begun: false,
            want: vec![],
            got: vec![],
            sent: vec![],
            recv: vec![],
            err: false,
            n: 0,
        }
    }
    /// The same client behind the foreign-function interface.
    fn new_ffi() -> W {
        let mut w = W::new(false);
        let dir = format!("/tmp/mc-ca-{}-{:?}.pem", std::process::id(), std::thread::current().id());
        std::fs::write(&dir, CA).unwrap();
        use flowsdk_ffi::engine::ffi_types::*;
        w.c = None;
        let o = opts();
        w.f = Some(flowsdk_ffi::engine::TlsMqttEngineFFI::new(
            MqttOptionsFFI {
                client_id: "tls".into(),
                mqtt_version: 5,
                clean_start: false,
                keep_alive: 20,
                username: Some("n\u{e9}".into()),
                password: Some("pw".into()),
                reconnect_base_delay_ms: o.reconnect_base_delay_ms,
                reconnect_max_delay_ms: o.reconnect_max_delay_ms,
                max_reconnect_attempts: o.max_reconnect_attempts,
            },
            MqttTlsOptionsFFI { ca_cert_file: Some(dir.clone()), client_cert_file: None, client_key_file: None, insecure_skip_verify: false, alpn_protocols: vec![], enable_key_log: false },
            "localhost".into(),
        ));
        std::fs::remove_file(&dir).ok();
        w.r = MqttEngine::new(MqttClientOptions::builder().client_id("tls").mqtt_version(5).clean_start(false).keep_alive(20).username("n\u{e9}").password("pw").build());
        w
    }
    fn say(&mut self, b: &[u8]) {
        if self.closed {
            return;
        }
        self.said.extend(b);
        self.s.writer().write_all(b).unwrap();
        self.collect();
    }
    fn collect(&mut self) {
        while self.s.wants_write() {
            self.s.write_tls(&mut self.down).unwrap();
        }
        if !self.s.is_handshaking() {
            self.under.append(&mut self.said);
        }
    }
    /// The ciphertext under way; the plaintext in it goes to the plain client.
    fn take_down(&mut self) -> Vec<u8> {
        self.plain.append(&mut self.under);
        std::mem::take(&mut self.down)
    }
    fn feed(&mut self, b: &[u8]) {
        self.fed += b.len();
        if let Some(c) = &mut self.c {
            self.err |= c.handle_socket_data(b).is_err();
        } else {
            self.f.as_ref().unwrap().handle_socket_data(b.to_vec());
        }
    }
    fn deliver(&mut self, step: usize) {
        self.collect();
        let d = self.take_down();
        for k in d.chunks(if step == 0 { d.len().max(1) } else { step }) {
            self.feed(k);
        }
    }
    /// Ciphertext of the client to the server.
    fn up(&mut self) -> Result<bool, String> {
        let mut any = false;
        loop {
            let b = match (&mut self.c, &self.f) {
                (Some(c), _) => c.take_socket_data(),
                (_, Some(f)) => f.take_socket_data(),
                _ => vec![],
            };
            if b.is_empty() {
                return Ok(any);
            }
            if any {
                return Err("one call does not take everything".into());
            }
            any = true;
            if b.windows(MARK.len()).any(|w| w == MARK) {
                return Err("payload sent in the clear".into());
            }
            let mut r = &b[..];
            while !r.is_empty() {
                self.s.read_tls(&mut r).map_err(|e| format!("the server cannot read: {}", e))?;
                self.s.process_new_packets().map_err(|e| format!("the server refuses what was sent: {}", e))?;
                let mut buf = [0u8; 4096];
                while let Ok(n) = self.s.reader().read(&mut buf) {
                    if n == 0 {
                        break;
                    }
                    self.recv.extend(&buf[..n]);
                }
            }
        }
    }
    fn plain_tick(&mut self) {
        let mut p = std::mem::take(&mut self.plain);
        loop {
            // until it has nothing more to tell
            let e = self.r.handle_incoming(&p);
            self.want.extend(specs(&e));
            p.clear();
            if e.is_empty() {
                break;
            }
        }
        let e = self.r.handle_tick(Instant::now());
        self.want.extend(specs(&e));
        let e = self.r.take_events();
        self.want.extend(specs(&e));
        self.sent.extend(self.r.take_outgoing());
    }
    fn tls_tick(&mut self) {
        let now = Instant::now();
        if let Some(c) = &mut self.c {
            let mut e = c.handle_tick(now);
            e.extend(c.take_events());
            self.got.extend(e.iter().filter_map(spec));
        } else {
            let f = self.f.as_ref().unwrap();
            f.handle_tick(env::vnow_ms());
            for e in vals(&f.take_events()) {
                if e.get("Error").is_some() {
                    self.err = true;
                } else {
                    self.got.push(e);
                }
            }
        }
    }
    fn tick(&mut self) -> Result<(), String> {
        // the plain client gets what has been delivered; everything here is delivered before a tick
        self.deliver(0);
        self.tls_tick();
        self.plain_tick();
        self.check(false)
    }
    /// `end`: nothing is under way any more.
    fn check(&self, end: bool) -> Result<(), String> {
        let k = self.got.len();
        if k > self.want.len() || self.got[..] != self.want[..k] || (end && k != self.want.len()) {
            let i = self.got.iter().zip(&self.want).take_while(|(a, b)| a == b).count();
            let cut = |v: Option<&Value>| v.map(|x| x.to_string().chars().take(160).collect::<String>());
            return Err(format!("events: number {} of {} is {:?}, the plain client's {} have {:?}", i, k, cut(self.got.get(i)), self.want.len(), cut(self.want.get(i))));
        }
        let m = self.recv.len();
        if m > self.sent.len() || self.recv[..] != self.sent[..m] || (end && m != self.sent.len()) {
            let i = self.recv.iter().zip(&self.sent).take_while(|(a, b)| a == b).count();
            return Err(format!("bytes: {} reach the server, {} sent by the plain client, equal up to {}", m, self.sent.len(), i));
        }
        if end && self.err {
            return Err("an error from an intact stream".into());
        }
        Ok(())
    }
    fn settle(&mut self) -> Result<(), String> {
        // what a tick makes leaves at the next one
        let mut idle = 0;
        for _ in 0..16 {
            self.deliver(0);
            let any = self.up()?;
            self.tls_tick();
            self.plain_tick();
            let any = self.up()? || any;
            self.collect();
            idle = if any || !self.down.is_empty() { 0 } else { idle + 1 };
            if idle == 2 {
                break;
            }
        }
        self.check(true)
    }
    fn publish(&mut self, n: usize, q: u8) -> Result<(), String> {
        let cmd = PublishCommand::simple("t", payload(n), q, false);
        let a = match (&mut self.c, &self.f) {
            (Some(c), _) => format!("{:?}", c.publish(cmd.clone()).map_err(|_| ())),
            (_, Some(f)) => match f.publish("t".into(), payload(n), q) {
                -1 => "Err(())".into(),
                0 => "Ok(None)".into(),
                i => format!("Ok(Some({}))", i),
            },
            _ => unreachable!(),
        };
        let b = format!("{:?}", self.r.publish(cmd).map_err(|_| ()));
        if a != b {
            return Err(format!("publish returns: {} / plain {}", a, b));
        }
        Ok(())
    }
    fn op(&mut self, o: u8, step: usize) -> Result<(), String> {
        self.n += 1;
        match o {
            // a TLS connection carries one MQTT connection
            0 if !self.begun => {
                self.begun = true;
                match (&mut self.c, &self.f) {
                    (Some(c), _) => c.connect(),
                    (_, Some(f)) => f.connect(),
                    _ => {}
                }
                self.r.connect();
            }
            0 => {}
            1 => self.say(&[0x20, 3, 0, 0, 0]),
            2 => self.say(&message(10, 0)),
            3 => self.say(&message(3000, 1)),
            4 => self.say(&message(20000, 0)),
            5 => {
                for i in 0..30 {
                    self.say(&message(i, 0));
                }
            }
            6 => self.say(&message(70000, 0)),
            7 => self.publish(10, 0)?,
            8 => self.publish(20000, 1)?,
            9 => self.publish(70000, 0)?,
            10 => self.publish(200_000, 0)?,
            11 => {
                let f = format!("s/{}", self.n);
                let a = match (&mut self.c, &self.f) {
                    (Some(c), _) => c.subscribe(SubscribeCommand::single(f.clone(), 1)).map_or(-1, |x| x as i32),
                    (_, Some(t)) => t.subscribe(f.clone(), 1),
                    _ => -2,
                };
                let b = self.r.subscribe(SubscribeCommand::single(f, 1)).map_or(-1, |x| x as i32);
                if a != b {
                    return Err(format!("subscribe returns: {} / plain {}", a, b));
                }
            }
            12 => {
                let t = vec!["u".to_string()];
                let a = match (&mut self.c, &self.f) {
                    (Some(c), _) => c.unsubscribe(UnsubscribeCommand::from_topics(t.clone())).map_or(-1, |x| x as i32),
                    (_, Some(f)) => f.unsubscribe("u".into()),
                    _ => -2,
                };
                let b = self.r.unsubscribe(UnsubscribeCommand::from_topics(t)).map_or(-1, |x| x as i32);
                if a != b {
                    return Err(format!("unsubscribe returns: {} / plain {}", a, b));
                }
            }
            13 => self.say(&[0x40, 2, 0, 1, 0x90, 4, 0, 1, 0, 1]),
            14 => self.deliver(step),
            15 => {
                self.deliver(step);
                self.tick()?
            }
            16 => {
                self.up()?;
                self.check(false)?
            }
            17 => {
                self.deliver(step);
                env::vadvance_ms(20_000);
                self.tick()?
            }
            18 => {
                match (&mut self.c, &self.f) {
                    (Some(c), _) => c.disconnect(),
                    (_, Some(f)) => f.disconnect(),
                    _ => {}
                }
                self.r.disconnect();
            }
            _ => {
                if !self.s.is_handshaking() {
                    self.s.send_close_notify();
                    self.closed = true;
                }
            }
        }
        let a = match (&self.c, &self.f) {
            (Some(c), _) => c.is_connected(),
            (_, Some(f)) => f.is_connected(),
            _ => false,
        };
        // both clients see what arrives at a tick, and only there
        if a != self.r.is_connected() {
            return Err(format!("is_connected: {} / plain {}", a, self.r.is_connected()));
        }
        Ok(())
    }
}

const OPS: [&str; 20] = [
    "connect", "CONNACK", "in 10 B", "in 3 KB", "in 20 KB", "in 30 small", "in 70 KB", "out 10 B", "out 20 KB q1", "out 70 KB", "out 200 KB", "subscribe", "unsubscribe", "acks", "deliver", "deliver, tick",
    "send", "deliver, 20 s", "disconnect", "close_notify",
];
const STEPS: [usize; 6] = [0, 1, 7, 1460, 4096, 16384];

// 0 fresh, 1 TLS up, 2 MQTT up; then the chunk size; then TLS 1.2; then the FFI
fn run1(start: u8, step: usize, variant: u8, h: &[u8], l: &mut Local) -> Result<(), (usize, String)> {
    let mut w = if variant == 2 { W::new_ffi() } else { W::new(variant == 1) };
    if start > 0 {
        for _ in 0..3 {
            w.up().map_err(|e| (0, e))?;
            w.deliver(0);
        }
    }
    if start > 1 {
        for o in [0, 15, 16, 1, 15] {
            w.op(o, 0).map_err(|e| (0, e))?;
        }
    }
    for (i, o) in h.iter().enumerate() {
        l.steps += 1;
        w.op(*o, step).map_err(|e| (i + 1, e))?;
    }
    w.settle().map_err(|e| (h.len(), format!("at the end, {}", e)))?;
    l.outcome(&(start, step, variant, hash(&format!("{:?}", w.want)), hash(&w.sent)));
    l.state(&(start, variant, w.want.len(), w.sent.len(), w.r.is_connected()));
    Ok(())
}

fn one(ctx: &Ctx, start: u8, si: usize, variant: u8, h: &[u8], l: &mut Local) {
    let mut c = vec![0, start, si as u8, variant];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let (n, e) = match guard(|| run1(start, STEPS[si], variant, h, l)) {
        Ok(Ok(())) => return,
        Ok(Err(x)) => x,
        Err(p) => (h.len(), format!("panic {}", p)),
    };
    c.truncate(4 + n);
    let names: Vec<&str> = h[..n].iter().map(|o| OPS[*o as usize]).collect();
    ctx.fail(
        &sigify(e.split(':').next().unwrap()),
        format!("{}, from {}, ciphertext in pieces of {} (0: whole), {:?}: {}", ["TLS 1.3", "TLS 1.2", "by the FFI"][variant as usize], ["the start", "a finished handshake", "a connected client"][start as usize], STEPS[si], names, e),
        &c,
    );
}

/// A conversation whose server-to-client bytes are cut, tampered with or truncated at given places.
/// mode 1: cut at a (and b), ticks between; 2: byte a xor b; 3: nothing after byte a; 4: record a dropped;
/// 5: record a twice; 6: records a and a+1 swapped. `script` 0 is long, 1 short.
fn fault(mode: u8, script: u8, variant: u8, a: usize, b: usize, l: &mut Local) -> Result<bool, String> {
    let mut w = if variant == 2 { W::new_ffi() } else { W::new(variant == 1) };
    w.op(0, 0)?;
    let mut all = 0usize; // ciphertext that came before
    let mut tampered = false;
    let mut stop = false;
    let mut stage = 0;
    loop {
        if let Err(e) = w.up() {
            if tampered && e.starts_with("the server") {
                break;
            }
            return Err(e);
        }
        w.collect();
        let idle = w.down.is_empty();
        if idle && !w.s.is_handshaking() {
            stage += 1;
            match (script, stage) {
                (_, 1) => w.say(&[0x20, 3, 0, 0, 0]),
                (0, 2) => {
                    w.say(&message(10, 0));
                    w.say(&message(1, 1));
                    w.say(&message(18000, 0));
                    w.say(&message(3, 0));
                }
                (_, 2) => {
                    w.say(&message(1, 0));
                    w.say(&message(2, 1));
                }
                _ => break,
            }
        } else if idle {
            w.tls_tick();
            w.plain_tick();
            if stop || w.err {
                break;
            }
            if w.n > 40 {
                break;
            }
            w.n += 1;
            continue;
        }
        let mut d = w.take_down();
        let lo = all;
        all += d.len();
        match mode {
            1 => {
                let mut cuts: Vec<usize> = [a, b].iter().filter(|x| **x > lo && **x < all).map(|x| x - lo).collect();
                cuts.push(d.len());
                let mut at = 0;
                for c in cuts {
                    if c > at {
                        w.feed(&d[at..c]);
                        w.tls_tick();
                        at = c;
                    }
                }
            }
            2 => {
                if a >= lo && a < all {
                    d[a - lo] ^= b as u8;
                    tampered = true;
                }
                w.feed(&d);
            }
            3 => {
                if a < all {
                    d.truncate(a.saturating_sub(lo));
                    stop = true;
                    tampered = true;
                }
                w.feed(&d);
            }
            _ => {
                // records, once the handshake is over
                let mut rec = vec![];
                let mut at = 0;
                while at + 5 <= d.len() {
                    let n = 5 + (d[at + 3] as usize * 256 + d[at + 4] as usize);
                    rec.push(d[at..at + n].to_vec());
                    at += n;
                }
                if stage == 2 && a < rec.len() {
                    match mode {
                        4 => {
                            // the last one is not missed
                            tampered = a + 1 < rec.len();
                            if tampered {
                                rec.remove(a);
                            }
                        }
                        5 => {
                            let r = rec[a].clone();
                            rec.insert(a, r);
                            tampered = true;
                        }
                        _ => {
                            if a + 1 < rec.len() {
                                rec.swap(a, a + 1);
                                tampered = true;
                            }
                        }
                    }
                }
                w.feed(&rec.concat());
            }
        }
        w.tls_tick();
        w.plain_tick();
        l.steps += 1;
        if stop || w.err {
            break;
        }
    }
    if mode == 1 {
        w.settle()?;
        l.outcome(&(mode, script, w.want.len(), w.recv.len()));
        return Ok(a >= all);
    }
    // more from the server, had it not been cut off
    let before = w.got.len();
    let errored = w.err;
    if errored {
        w.say(&message(5, 0));
        let d = w.take_down();
        w.feed(&d);
        w.tls_tick();
        if w.got.len() > before {
            return Err(format!("data after a TLS error: {:?}", w.got.last()));
        }
    }
    w.check(false)?;
    if !tampered {
        w.check(true)?;
    } else if mode >= 4 && !errored {
        return Err("no error: a dropped, repeated or swapped record".into());
    }
    l.outcome(&(mode, script, errored, w.got.len()));
    Ok(a >= all)
}

/// The server's plaintext in records that end at `a`, `b` and the end, each of them delivered and settled before the next.
fn records(script: u8, variant: u8, a: usize, b: usize, l: &mut Local) -> Result<bool, String> {
    let mut w = if variant == 2 { W::new_ffi() } else { W::new(variant == 1) };
    w.op(0, 0)?;
    w.settle()?;
    let mut p = vec![0x20, 3, 0, 0, 0];
    p.extend(message(0, 0));
    p.extend(message(2, 1));
    if script == 0 {
        p.extend(message(10, 2));
        p.extend([0x62, 2, 0, 1, 0xe0, 2, 0x8b, 0]);
    } else {
        p.extend([0x40, 2, 0, 1, 0x90, 4, 0, 2, 0, 1, 0xe0, 0]);
        w.publish(3, 1)?;
        w.op(11, 0)?;
    }
    let mut at = 0;
    for c in [a.min(p.len()), b.min(p.len()), p.len()] {
        if c > at {
            w.say(&p[at..c]);
            w.settle()?;
            l.steps += 1;
            at = c;
        }
    }
    l.outcome(&(7, script, w.want.len(), w.recv.len()));
    Ok(a >= p.len())
}

fn fault1(ctx: &Ctx, mode: u8, script: u8, variant: u8, a: usize, b: usize, l: &mut Local) -> bool {
    let mut c = vec![1, mode, script, variant];
    c.extend((a as u32).to_le_bytes());
    c.extend((b as u32).to_le_bytes());
    case(&c);
    l.evals += 1;
    match guard(|| if mode == 7 { records(script, variant, a, b, l) } else { fault(mode, script, variant, a, b, l) }) {
        Ok(Ok(x)) => x,
        r => {
            let e = match r {
                Ok(Err(e)) => e,
                Err(p) => format!("panic {}", p),
                _ => String::new(),
            };
            let what = ["", "cut", "changed", "truncated", "record dropped", "record repeated", "records swapped", "plaintext cut"][mode as usize];
            ctx.fail(&sigify(&format!("{} {}", what, e.split(':').next().unwrap())), format!("{} at {} ({}), script {}: {}", what, a, b, script, e), &c);
            true
        }
    }
}

pub fn x02(ctx: &Ctx) {
    configs();
    let t = ctx.thorough;
    let k = OPS.len();
    // histories
    let runs: Vec<(u8, usize, u8, usize)> = {
        let mut v = vec![];
        for start in 0..3 {
            for si in 0..STEPS.len() {
                v.push((start, si, 0, if t { 4 } else if si == 0 || (start == 2 && si == 3) { 3 } else { 2 }));
            }
            v.push((start, 0, 1, if t { 4 } else { 2 }));
            v.push((start, 0, 2, if t { 4 } else if start == 2 { 3 } else { 2 }));
        }
        v
    };
    for (start, si, variant, d) in runs {
        histories(ctx, 1, k, d, 2, |_, h, l| {
            // runs of one bulky message after another only cost time
            if h.iter().filter(|o| matches!(**o, 6 | 10)).count() > 2 || (STEPS[si] == 1 && h.iter().filter(|o| matches!(**o, 4 | 6)).count() > 1) {
                return;
            }
            one(ctx, start, si, variant, h, l)
        });
    }
    // one cut anywhere; one byte changed anywhere; the end anywhere
    let block = 64;
    for (mode, script, variant) in [(1u8, 0u8, 0u8), (2, 0, 0), (3, 0, 0), (1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 1, 2), (2, 1, 2), (3, 1, 2)] {
        ctx.par(32768 / block, |i, l| {
            for a in i * block..(i + 1) * block {
                for b in if mode == 2 && t { vec![1, 2, 4, 8, 16, 32, 64, 128, 255] } else { vec![if mode == 2 { 1 << (a % 8) } else { 0 }] } {
                    if fault1(ctx, mode, script, variant, a, b, l) {
                        return;
                    }
                }
            }
        });
    }
    // two cuts
    ctx.par(2500, |a, l| {
        let w = if t { 2500 } else { 12 };
        for b in a + 1..a + w {
            if fault1(ctx, 1, 1, 0, a, b, l) {
                return;
            }
        }
    });
    ctx.par(1, |_, l| {
        for mode in 4..7 {
            for variant in 0..3 {
                for a in 0..8 {
                    fault1(ctx, mode, 0, variant, a, 0, l);
                }
            }
        }
    });
    // the server's plaintext in up to three records
    ctx.par(96, |a, l| {
        for script in 0..2 {
            for variant in 0..3 {
                for b in a..(if variant == 0 || t { 96 } else { a + 3 }) {
                    fault1(ctx, 7, script, variant, a, b, l);
                }
            }
        }
    });
    ctx.note("bounds", "20 calls and arrivals, all sequences of length 3 from three starting points, ciphertext whole, and 2 or 3 of them in pieces of 1, 7, 1460, 4096 and 16384 bytes (thorough: 4), TLS 1.3 and 1.2, native and FFI; every single cut, every pair of cuts close to each other (thorough: every pair), every byte changed, every truncation, every record dropped, repeated or swapped; the server's plaintext divided into records at every pair of places");
}

pub fn x02_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    if c[0] == 0 {
        one(ctx, c[1], c[2] as usize, c[3], &c[4..], &mut l);
    } else {
        let n = |i: usize| u32::from_le_bytes(c[i..i + 4].try_into().unwrap()) as usize;
        fault1(ctx, c[1], c[2], c[3], n(4), n(8), &mut l);
    }
}
