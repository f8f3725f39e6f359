//! T01, T02: the tokio client over a network in memory on a paused clock, against a scripted server and a model
//! of what each call returns, what the handler hears and when connections are made.
use crate::env;
use crate::fw::*;
use crate::quic::Srv;
use crate::refcodec::{frame, framing, Framing};
use flowsdk::mqtt_client::client::{ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::engine::MqttMessage;
use flowsdk::mqtt_client::error::MqttClientError;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tokio_async_client::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type R<T> = Result<T, String>;

#[derive(Clone, Debug, PartialEq, Hash)]
enum Ev {
    Connected(u8, bool),
    Disconnected(Option<u8>),
    Lost,
    Published(u16, u8),
    Subscribed(u16, Vec<u8>),
    Unsubscribed(u16, Vec<u8>),
    Msg(Vec<u8>),
    Ping,
}
#[derive(Default)]
struct Log {
    ev: Vec<Ev>,
    attempts: Vec<u32>,
    errors: usize,
    n: usize,
    res: Vec<Option<Res>>,
}
#[derive(Clone, Debug, PartialEq, Hash)]
enum Res {
    Conn(u8, bool),
    Pub(u16, u8),
    Q0,
    Sub(u16, Vec<u8>),
    Unsub(u16, Vec<u8>),
    Pong,
    Timeout,
    Fail,
}
type Shared = Arc<Mutex<Log>>;

struct H(Shared);
impl H {
    fn put(&self, e: Ev) {
        let mut l = self.0.lock().unwrap();
        l.ev.push(e);
        l.n += 1;
    }
}
#[async_trait::async_trait]
impl TokioMqttEventHandler for H {
    async fn on_connected(&mut self, r: &ConnectionResult) {
        self.put(Ev::Connected(r.reason_code, r.session_present));
    }
    async fn on_disconnected(&mut self, r: Option<u8>) {
        self.put(Ev::Disconnected(r));
    }
    async fn on_published(&mut self, r: &PublishResult) {
        self.put(Ev::Published(r.packet_id.unwrap_or(0), r.reason_code.unwrap_or(255)));
    }
    async fn on_subscribed(&mut self, r: &SubscribeResult) {
        self.put(Ev::Subscribed(r.packet_id, r.reason_codes.clone()));
    }
    async fn on_unsubscribed(&mut self, r: &UnsubscribeResult) {
        self.put(Ev::Unsubscribed(r.packet_id, r.reason_codes.clone()));
    }
    async fn on_message_received(&mut self, p: &MqttMessage) {
        self.put(Ev::Msg(p.payload.clone()));
    }
    async fn on_ping_response(&mut self, _: &PingResult) {
        self.put(Ev::Ping);
    }
    async fn on_error(&mut self, _: &MqttClientError) {
        let mut l = self.0.lock().unwrap();
        l.errors += 1;
        l.n += 1;
    }
    async fn on_connection_lost(&mut self) {
        self.put(Ev::Lost);
    }
    async fn on_reconnect_attempt(&mut self, n: u32) {
        let mut l = self.0.lock().unwrap();
        l.attempts.push(n);
        l.n += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Kind {
    Conn,
    Pub(u8),
    Big,
    Sub,
    Unsub,
    Ping,
}
/// Every kind of operation has a timeout of its own.
fn extra(k: Kind) -> u64 {
    match k {
        Kind::Conn => 1000,
        Kind::Pub(_) | Kind::Big => 0,
        Kind::Sub => 2000,
        Kind::Unsub => 4000,
        Kind::Ping => 3000,
    }
}
struct Call {
    kind: Kind,
    at: u64,
    timeout: Option<u64>,
    expect: Option<Res>,
    may_fail: bool,
    must_fail: bool,
    seen: bool, // its request has been received on the present connection
    pings: usize,
    pong_ok: bool,
    sync: bool,
    done: bool,
}
/// A request the server has received and not answered.
#[derive(Clone, Debug)]
struct Req {
    typ: u8, // 3 publish, 6 pubrel, 8, 10, 12
    pid: u16,
    qos: u8,
    call: Option<usize>,
}
pub struct Conn {
    pub fd: i32,
    pub tls: Option<Box<rustls::ServerConnection>>,
    pub q: Option<Box<Srv>>,
    pub buf: Vec<u8>,
    pub eof: bool,
    pub reading: bool,
    pub limit: usize, // takes no more at a time
    pub pumps: usize,
    stop: u64,          // not reading since
    act: u64,           // the latest reason for the client to send, while not reading
    until: Option<u64>, // the client may take this long to close
    first: bool,       // CONNECT received
    ack: Option<bool>, // CONNACK sent: accepted
    last: u8,
    pings: Vec<u64>, // when unanswered PINGREQs came
    npings: usize,
    npongs: usize,
    reqs: Vec<Req>,
}
impl Conn {
    pub fn new() -> Conn {
        Conn { limit: usize::MAX, pumps: 0, fd: -1, tls: None, q: None, buf: vec![], eof: false, reading: true, stop: 0, act: 0, until: None, first: false, ack: None, last: 0, pings: vec![], npings: 0, npongs: 0, reqs: vec![] }
    }
    pub fn flush(&mut self) -> bool {
        let mut any = false;
        let fd = self.fd;
        while let Some(t) = self.tls.as_mut().filter(|t| t.wants_write()) {
            let mut w = Fd(fd);
            if !t.write_tls(&mut w).is_ok_and(|n| n > 0) {
                break;
            }
            any = true;
        }
        any
    }
    /// Take what has arrived.
    pub fn take(&mut self) -> R<bool> {
        let mut any = self.flush();
        if self.eof {
            return Ok(any);
        }
        if let Some(q) = &mut self.q {
            self.pumps += 1;
            q.reading = self.reading && (self.limit == usize::MAX || self.pumps % 4 == 0);
            any |= datagrams(self.fd, q, false);
            self.buf.append(q.rx.entry(0).or_default());
            self.eof = q.lost.is_some() || q.rfin.contains(&0) || q.rreset.contains_key(&0);
            return Ok(any);
        }
        if !self.reading {
            if hup(self.fd) {
                any = true;
                self.eof = true;
            }
            return Ok(any);
        }
        let mut b = [0u8; 2048];
        let mut left = self.limit;
        loop {
            let n = unsafe { libc::read(self.fd, b.as_mut_ptr() as *mut _, b.len().min(left)) };
            if n <= 0 {
                if n == 0 && left > 0 {
                    any = true;
                    self.eof = true;
                }
                return Ok(any);
            }
            any = true;
            left = left.saturating_sub(n as usize);
            let mut d = &b[..n as usize];
            match &mut self.tls {
                None => self.buf.extend(d),
                Some(t) => {
                    while !d.is_empty() {
                        t.read_tls(&mut d).map_err(|e| format!("server: {}", e))?;
                        let st = t.process_new_packets().map_err(|e| format!("server: {}", e))?;
                        self.eof |= st.peer_has_closed();
                        use std::io::Read;
                        let mut p = [0u8; 4096];
                        while let Ok(n @ 1..) = t.reader().read(&mut p) {
                            self.buf.extend(&p[..n]);
                        }
                    }
                    self.flush();
                }
            }
        }
    }
}
struct Fd(i32);
impl std::io::Write for Fd {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = unsafe { libc::send(self.0, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) };
        if n < 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(n as usize)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// The other side has closed.
pub fn hup(fd: i32) -> bool {
    let mut p = libc::pollfd { fd, events: libc::POLLRDHUP, revents: 0 };
    unsafe { libc::poll(&mut p, 1, 0) > 0 && p.revents & (libc::POLLHUP | libc::POLLRDHUP) != 0 }
}
/// What has arrived for a server, and its answers unless nobody is to hear from it.
pub fn datagrams(fd: i32, q: &mut Srv, silent: bool) -> bool {
    let now = std::time::Instant::now();
    let mut any = false;
    let mut b = [0u8; 65536];
    loop {
        let n = unsafe { libc::recv(fd, b.as_mut_ptr() as *mut _, b.len(), 0) };
        if n <= 0 {
            break;
        }
        any = true;
        q.recv(&b[..n as usize], now);
        q.poll(now);
    }
    q.poll(now);
    while let Some(d) = q.out.front().filter(|_| !silent) {
        let n = unsafe { libc::send(fd, d.as_ptr() as *const _, d.len(), libc::MSG_NOSIGNAL) };
        if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::WouldBlock {
            break;
        }
        any = true;
        q.out.pop_front();
    }
    any
}
/// The client has given up on an attempt.
fn over(fd: i32, q: &Option<Box<Srv>>) -> bool {
    match q {
        Some(q) => q.lost.is_some(),
        None => hup(fd),
    }
}
pub fn drain(fd: i32) {
    let mut b = [0u8; 65536];
    while unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) } > 0 {}
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tls {
    No,
    Rustls,
    Native,
    Quic,
}
#[derive(Clone)]
struct Cfg {
    tls: Tls,
    ver: u8,
    auto: bool,
    timeout: Option<u64>,
    limit: u32,
    max: u64,
    by_config: bool, // limits given in the client's configuration, else in the options
}
fn cfgs() -> [Cfg; 8] {
    [
        Cfg { tls: Tls::No, ver: 5, auto: true, timeout: None, limit: 0, max: 4000, by_config: false },
        Cfg { tls: Tls::No, ver: 5, auto: true, timeout: Some(3000), limit: 2, max: 60000, by_config: false },
        Cfg { tls: Tls::No, ver: 5, auto: false, timeout: None, limit: 0, max: 60000, by_config: false },
        Cfg { tls: Tls::No, ver: 4, auto: true, timeout: None, limit: 3, max: 2000, by_config: true },
        Cfg { tls: Tls::Rustls, ver: 5, auto: true, timeout: None, limit: 0, max: 4000, by_config: false },
        Cfg { tls: Tls::Native, ver: 4, auto: true, timeout: Some(3000), limit: 0, max: 4000, by_config: false },
        Cfg { tls: Tls::Quic, ver: 5, auto: true, timeout: None, limit: 0, max: 4000, by_config: false },
        Cfg { tls: Tls::Quic, ver: 4, auto: true, timeout: Some(3000), limit: 2, max: 4000, by_config: false },
    ]
}
pub fn server_tls() -> Arc<rustls::ServerConfig> {
    static S: std::sync::OnceLock<Arc<rustls::ServerConfig>> = std::sync::OnceLock::new();
    S.get_or_init(|| Arc::new(crate::auth::server(0, false, false, &[]))).clone()
}
pub fn server_quic() -> Arc<quinn_proto::ServerConfig> {
    static S: std::sync::OnceLock<Arc<quinn_proto::ServerConfig>> = std::sync::OnceLock::new();
    S.get_or_init(|| crate::quic::server_config(crate::auth::server(0, false, false, &[b"mqtt"]), 100_000)).clone()
}
const KA: u64 = 5000;
const STEP: u64 = 500;

struct W {
    cfg: Cfg,
    client: Option<Arc<TokioAsyncMqttClient>>,
    tasks: Vec<tokio::task::JoinHandle<()>>,
    log: Shared,
    calls: Vec<Call>,
    conns: Vec<Conn>,
    want: Vec<Ev>,
    // model of the connection
    live: bool,
    wanted: bool,
    auto: bool,
    tries: u32,
    next: Option<u64>,
    sched: Vec<(u32, bool)>, // automatic attempts planned: number, made
    attempts: usize,
    refuse: bool,
    hang: bool,
    hanging: Option<(u64, i32)>, // an attempt under way since, and its other end
    hq: Option<Box<Srv>>,
    gone: Vec<(i32, Option<Box<Srv>>)>, // other ends of attempts that are over
    old: Vec<(i32, Box<Srv>)>,          // connections the server has closed
    off: bool,                          // shut down
    msgs: u8,
}

impl Drop for W {
    fn drop(&mut self) {
        for fd in self.conns.iter().map(|c| c.fd).chain(self.hanging.map(|h| h.1)).chain(self.gone.drain(..).map(|g| g.0)).chain(self.old.drain(..).map(|g| g.0)) {
            if fd >= 0 {
                unsafe { libc::close(fd) };
            }
        }
        env::net(|n| {
            if let Some(n) = n {
                for f in &n.fresh {
                    unsafe { libc::close(*f) };
                }
            }
            *n = None;
        });
    }
}

impl W {
    async fn new(cfg: Cfg) -> W {
        let log: Shared = Arc::new(Mutex::new(Log::default()));
        let mut o = MqttClientOptions::builder().peer("127.0.0.1:1883").client_id("t").mqtt_version(cfg.ver).keep_alive((KA / 1000) as u16).clean_start(false).reconnect_base_delay_ms(1000);
        let mut c = TokioAsyncClientConfig::builder().auto_reconnect(cfg.auto);
        if cfg.by_config {
            c = c.max_reconnect_attempts(cfg.limit).max_reconnect_delay_ms(cfg.max);
        } else {
            o = o.max_reconnect_attempts(cfg.limit).reconnect_max_delay_ms(cfg.max);
            c = c.max_reconnect_delay_ms(60000);
        }
        c = match cfg.timeout {
            None => c.no_connect_timeout().no_publish_ack_timeout().no_subscribe_timeout().no_unsubscribe_timeout().no_ping_timeout(),
            Some(t) => c
                .connect_timeout_ms(t + extra(Kind::Conn))
                .publish_ack_timeout_ms(t + extra(Kind::Pub(1)))
                .subscribe_timeout_ms(t + extra(Kind::Sub))
                .unsubscribe_timeout_ms(t + extra(Kind::Unsub))
                .ping_timeout_ms(t + extra(Kind::Ping)),
        };
        match cfg.tls {
            Tls::No | Tls::Quic => {}
            Tls::Rustls => {
                let r = flowsdk::mqtt_client::transport::RustlsTlsConfig::builder().use_system_roots(false).add_roots_from_pem(crate::tls::CA).unwrap().build();
                o = o.peer("mqtts://127.0.0.1:8883").rustls_tls_config(r);
            }
            Tls::Native => {
                let r = flowsdk::mqtt_client::transport::tls::TlsConfig::builder().add_root_certificate(native_tls::Certificate::from_pem(crate::tls::CA).unwrap()).build();
                o = o.peer("mqtts://127.0.0.1:8883").tls_config(r);
            }
        }
        if cfg.tls == Tls::Quic {
            o = o.peer(format!("quic://127.0.0.1:{}", env::PEER));
            c = c.quic_custom_root_ca_pem(String::from_utf8(crate::tls::CA.to_vec()).unwrap());
        }
        let client = TokioAsyncMqttClient::new(o.build(), Box::new(H(log.clone())), c.build()).await.unwrap();
        W {
            auto: cfg.auto,
            cfg,
            client: Some(Arc::new(client)),
            tasks: vec![],
            log,
            calls: vec![],
            conns: vec![],
            want: vec![],
            live: false,
            wanted: false,
            tries: 0,
            next: None,
            sched: vec![],
            attempts: 0,
            refuse: false,
            hang: false,
            hanging: None,
            hq: None,
            gone: vec![],
            old: vec![],
            off: false,
            msgs: 0,
        }
    }
    fn cur(&mut self) -> Option<&mut Conn> {
        if self.live {
            self.conns.last_mut()
        } else {
            None
        }
    }
    fn up(&self) -> bool {
        self.live && self.conns.last().is_some_and(|c| c.ack == Some(true))
    }

    // ---- the model ----
    fn schedule(&mut self) {
        if !self.auto {
            self.tries = 0;
        }
        if !self.auto || !self.wanted || (self.cfg.limit > 0 && self.tries >= self.cfg.limit) {
            // nobody will take these up again
            for c in self.calls.iter_mut().filter(|c| c.sync && !c.done && !matches!(c.kind, Kind::Conn | Kind::Ping)) {
                c.must_fail = true;
            }
            self.next = None;
            return;
        }
        let d = (1000u64 << self.tries.min(20)).min(self.cfg.max);
        self.tries += 1;
        self.next = Some(env::vnow_ms() + d);
        self.sched.push((self.tries, false));
    }
    fn ended(&mut self) {
        self.live = false;
        for c in self.calls.iter_mut().filter(|c| !c.done && c.sync) {
            c.may_fail = true;
            c.seen = false;
            if matches!(c.kind, Kind::Conn | Kind::Ping) && c.expect.is_none() {
                c.must_fail = true;
            }
        }
    }
    fn lost(&mut self) {
        if self.live {
            self.ended();
            self.want.push(Ev::Lost);
            self.schedule();
        }
    }
    /// A connection attempt of the client's.
    fn attempt(&mut self) {
        self.next = None;
        self.attempts += 1;
        if self.refuse {
            self.failed();
        } else if self.hang {
            self.hanging = Some((env::vnow_ms(), -1));
        } else {
            self.live = true;
            self.conns.push(Conn::new());
        }
    }
    fn failed(&mut self) {
        for c in self.calls.iter_mut().filter(|c| !c.done && c.kind == Kind::Conn) {
            c.must_fail = true;
        }
        for c in self.calls.iter_mut().filter(|c| !c.done) {
            c.may_fail = true;
        }
        self.schedule();
    }
    /// The attempt under way is over; what it has as a connection is to be closed.
    fn unhang(&mut self) {
        if let Some((_, fd)) = self.hanging.take() {
            self.gone.push((fd, self.hq.take()));
        }
    }

    // ---- the real thing ----
    async fn settle(&mut self) -> R<()> {
        let mut idle = 0;
        let mut n = 0;
        while idle < 24 {
            tokio::task::yield_now().await;
            idle += 1;
            let m = self.log.lock().unwrap().n;
            if m != n {
                n = m;
                idle = 0;
            }
            if self.pump()? {
                idle = 0;
            }
        }
        self.verify()
    }
    /// Take what reached the server.
    fn pump(&mut self) -> R<bool> {
        let mut any = false;
        let (attempts, fresh) = env::net(|n| {
            let n = n.as_mut().unwrap();
            (n.attempts, std::mem::take(&mut n.fresh))
        });
        // an automatic attempt
        while self.attempts < attempts {
            any = true;
            match self.next {
                Some(t) if env::vnow_ms() >= t && !self.live && self.hanging.is_none() => {
                    if let Some(s) = self.sched.last_mut() {
                        s.1 = true;
                    }
                    self.attempt();
                }
                _ => {
                    for f in fresh {
                        unsafe { libc::close(f) };
                    }
                    return Err(format!("connects: an attempt that is not due (next {:?}, now {}, connected {}, wanted {})", self.next, env::vnow_ms(), self.live, self.wanted));
                }
            }
        }
        for f in fresh {
            any = true;
            match (&mut self.hanging, self.conns.last_mut()) {
                (Some(h), _) if h.1 < 0 => {
                    h.1 = f;
                    if self.cfg.tls == Tls::Quic {
                        self.hq = Some(Box::new(Srv::new(server_quic(), 7)));
                    }
                }
                (_, Some(c)) if c.fd < 0 && !c.eof => self.given(f),
                _ => {
                    unsafe { libc::close(f) };
                    return Err("connects: more than expected".into());
                }
            }
        }
        let now = env::vnow_ms();
        if let (Some((_, fd)), Some(q)) = (&self.hanging, &mut self.hq) {
            any |= datagrams(*fd, q, true);
        }
        for (fd, q) in &mut self.gone {
            if let Some(q) = q {
                any |= datagrams(*fd, q, true);
            }
        }
        for (fd, q) in &mut self.old {
            any |= datagrams(*fd, q, false);
        }
        for i in 0..self.conns.len() {
            let c = &mut self.conns[i];
            if c.fd < 0 || c.eof {
                continue;
            }
            any |= c.take()?;
            while let Framing::Frame { hdr, total } = framing(&self.conns[i].buf) {
                if self.conns[i].buf.len() < total {
                    break;
                }
                let p: Vec<u8> = self.conns[i].buf.drain(..total).collect();
                self.received(i, &p, hdr, now)?;
            }
        }
        Ok(any)
    }
    fn given(&mut self, f: i32) {
        let c = self.conns.last_mut().unwrap();
        c.fd = f;
        if self.cfg.tls == Tls::Quic {
            c.q = Some(self.hq.take().unwrap_or_else(|| Box::new(Srv::new(server_quic(), 7))));
        } else if self.cfg.tls != Tls::No {
            c.tls = Some(Box::new(rustls::ServerConnection::new(server_tls()).unwrap()));
        }
    }
    fn received(&mut self, i: usize, p: &[u8], hdr: usize, now: u64) -> R<()> {
        let t = p[0] >> 4;
        let v5 = self.cfg.ver == 5;
        let c = &mut self.conns[i];
        c.last = t;
        if !c.first {
            if t != 1 {
                return Err(format!("server: the first packet of a connection is {:02x}", p[0]));
            }
            c.first = true;
            return Ok(());
        }
        if c.ack != Some(true) && t != 14 {
            return Err(format!("server: packet {:02x} before CONNACK", p[0]));
        }
        let u16at = |k: usize| p[k] as u16 * 256 + p[k + 1] as u16;
        match t {
            3 => {
                let tl = u16at(hdr) as usize;
                let qos = p[0] >> 1 & 3;
                let mut at = hdr + 2 + tl;
                let mut pid = 0;
                if qos > 0 {
                    pid = u16at(at);
                    at += 2;
                }
                if v5 {
                    at += 1;
                }
                let call = (p[at] != 255).then_some(p[at] as usize);
                if let Some(k) = call {
                    if let Some(x) = self.calls.get_mut(k) {
                        x.seen = true;
                    }
                }
                // a second time in MQTT 3.1.1
                if qos > 0 && !c.reqs.iter().any(|r| r.typ == 3 && r.pid == pid) {
                    c.reqs.push(Req { typ: 3, pid, qos, call });
                }
            }
            5 | 4 | 7 => {}
            6 => {
                // the release of a QoS 2 publish; whose, is known from the publish
                let pid = u16at(hdr);
                let call = self.conns.iter().rev().flat_map(|c| c.reqs.iter()).find(|r| r.typ == 103 && r.pid == pid).and_then(|r| r.call);
                if let Some(k) = call {
                    self.calls[k].seen = true;
                }
                if !self.conns[i].reqs.iter().any(|r| r.typ == 6 && r.pid == pid) {
                    self.conns[i].reqs.push(Req { typ: 6, pid, qos: 2, call });
                }
            }
            8 | 10 => {
                let pid = u16at(hdr);
                let at = hdr + 2 + v5 as usize;
                let f = String::from_utf8_lossy(&p[at + 2..at + 2 + u16at(at) as usize]).to_string();
                let call = f[2..].parse::<usize>().ok();
                if let Some(k) = call {
                    if let Some(x) = self.calls.get_mut(k) {
                        x.seen = true;
                    }
                }
                if !c.reqs.iter().any(|r| r.typ == t && r.pid == pid) {
                    c.reqs.push(Req { typ: t, pid, qos: 1, call });
                }
            }
            12 => {
                c.npings += 1;
                c.pings.push(now);
                c.reqs.push(Req { typ: 12, pid: 0, qos: 0, call: None });
                // the calls that wait for it
                let n = c.npings;
                for x in self.calls.iter_mut().filter(|x| x.kind == Kind::Ping && x.pings == 0 && !x.must_fail && !x.done) {
                    x.pings = n;
                    break;
                }
            }
            14 | 15 => {}
            _ => return Err(format!("server: packet {:02x}", p[0])),
        }
        Ok(())
    }
    fn write(&mut self, b: &[u8]) {
        let Some(c) = self.cur() else { return };
        if let Some(t) = &mut c.tls {
            use std::io::Write;
            let _ = t.writer().write_all(b);
            c.flush();
            return;
        }
        if let Some(q) = &mut c.q {
            q.tx.entry(0).or_default().extend(b);
            datagrams(c.fd, q, false);
            return;
        }
        let mut at = 0;
        while at < b.len() {
            let n = unsafe { libc::send(c.fd, b[at..].as_ptr() as *const _, b.len() - at, libc::MSG_NOSIGNAL) };
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
    }
    /// The answer to a request, and what it does.
    fn answer(&mut self, r: Req, bad: bool) {
        let v5 = self.cfg.ver == 5;
        let id = r.pid.to_be_bytes();
        let rc = |x: u8| if bad { x } else { 0 };
        let mut res = None;
        let mut ev = None;
        let b = match (r.typ, r.qos) {
            (3, 1) => {
                let c = if v5 { rc(0x97) } else { 0 };
                res = Some(Res::Pub(r.pid, c));
                ev = Some(Ev::Published(r.pid, c));
                let mut b = id.to_vec();
                if v5 && c != 0 {
                    b.push(c);
                }
                frame(0x40, &b)
            }
            (3, _) => {
                let c = if v5 { rc(0x87) } else { 0 };
                let mut b = id.to_vec();
                if c != 0 {
                    b.push(c);
                    res = Some(Res::Pub(r.pid, c));
                    ev = Some(Ev::Published(r.pid, c));
                } else if let Some(x) = self.cur() {
                    x.reqs.push(Req { typ: 103, ..r.clone() });
                }
                frame(0x50, &b)
            }
            (6, _) => {
                let c = if v5 { rc(0x92) } else { 0 };
                res = Some(Res::Pub(r.pid, c));
                ev = Some(Ev::Published(r.pid, c));
                let mut b = id.to_vec();
                if c != 0 {
                    b.push(c);
                }
                frame(0x70, &b)
            }
            (8, _) => {
                let c = if bad { 0x80 } else { 1 };
                res = Some(Res::Sub(r.pid, vec![c]));
                ev = Some(Ev::Subscribed(r.pid, vec![c]));
                let mut b = id.to_vec();
                if v5 {
                    b.push(0);
                }
                b.push(c);
                frame(0x90, &b)
            }
            (10, _) => {
                let c = if bad { 0x11 } else { 0 };
                let codes = if v5 { vec![c] } else { vec![] };
                res = Some(Res::Unsub(r.pid, codes.clone()));
                ev = Some(Ev::Unsubscribed(r.pid, codes.clone()));
                let mut b = id.to_vec();
                if v5 {
                    b.push(0);
                    b.extend(codes);
                }
                frame(0xb0, &b)
            }
            _ => {
                ev = Some(Ev::Ping);
                let c = self.cur().unwrap();
                c.npongs += 1;
                c.pings.remove(0);
                let n = c.npongs;
                // a response to an earlier request is one, too
                for x in self.calls.iter_mut().filter(|x| x.kind == Kind::Ping && !x.done && !x.must_fail) {
                    x.pong_ok = true;
                }
                for x in self.calls.iter_mut().filter(|x| x.kind == Kind::Ping && !x.done && !x.must_fail && x.pings > 0 && x.pings <= n) {
                    x.expect = Some(Res::Pong);
                }
                vec![0xd0, 0]
            }
        };
        if let (Some(k), Some(res)) = (r.call, res) {
            if let Some(x) = self.calls.get_mut(k) {
                x.expect = Some(res);
            }
        }
        self.want.extend(ev);
        self.write(&b);
    }
    fn call(&mut self, kind: Kind, sync: bool) {
        let k = self.calls.len();
        self.calls.push(Call { kind, at: env::vnow_ms(), timeout: self.cfg.timeout.map(|t| t + extra(kind)), expect: None, may_fail: false, must_fail: false, seen: false, pings: 0, pong_ok: false, sync, done: !sync });
        let log = self.log.clone();
        log.lock().unwrap().res.push(None);
        if self.conns.is_empty() && !matches!(kind, Kind::Conn) {
            // there is no session yet
            self.calls[k].may_fail = true;
        }
        let Some(c) = self.client.clone() else { return };
        let conn = |r: Result<ConnectionResult, MqttClientError>| r.map(|r| Res::Conn(r.reason_code, r.session_present));
        self.tasks.push(tokio::spawn(async move {
            let payload = vec![k as u8; 3];
            let topic = format!("s/{}", k);
            let r = match (kind, sync) {
                (Kind::Conn, true) => conn(c.connect_sync().await),
                (Kind::Pub(q), true) => c.publish_sync("t", &payload, q, false).await.map(|r| match r.packet_id {
                    None if q == 0 => Res::Q0,
                    p => Res::Pub(p.unwrap_or(0), r.reason_code.unwrap_or(255)),
                }),
                (Kind::Big, true) => c.publish_sync("t", &vec![k as u8; 300_000], 1, false).await.map(|r| Res::Pub(r.packet_id.unwrap_or(0), r.reason_code.unwrap_or(255))),
                (Kind::Sub, true) => c.subscribe_sync(&topic, 1).await.map(|r| Res::Sub(r.packet_id, r.reason_codes)),
                (Kind::Unsub, true) => c.unsubscribe_sync(vec![&topic]).await.map(|r| Res::Unsub(r.packet_id, r.reason_codes)),
                (Kind::Ping, true) => c.ping_sync().await.map(|r| if r.success { Res::Pong } else { Res::Fail }),
                (k, _) => {
                    let _ = match k {
                        Kind::Conn => c.connect().await,
                        Kind::Pub(q) => c.publish("t", &[255, 1], q, false).await,
                        Kind::Big => return,
                        Kind::Sub => c.subscribe(&topic, 1).await,
                        Kind::Unsub => c.unsubscribe(vec![&topic]).await,
                        Kind::Ping => c.ping().await,
                    };
                    return;
                }
            };
            let r = match r {
                Ok(Res::Pub(0, _)) => Res::Fail,
                Ok(Res::Sub(0, _)) | Ok(Res::Unsub(0, _)) => Res::Fail,
                Ok(r) => r,
                Err(MqttClientError::OperationTimeout { .. }) => Res::Timeout,
                Err(_) => Res::Fail,
            };
            let mut l = log.lock().unwrap();
            l.n += 1;
            l.res[k] = Some(r);
        }));
    }
    fn verify(&mut self) -> R<()> {
        let now = env::vnow_ms();
        // what becomes of an attempt without an end
        if let Some((t, fd)) = self.hanging {
            let end = self.cfg.timeout.map(|x| t + x + extra(Kind::Conn));
            let given_up = over(fd, &self.hq);
            if fd < 0 {
                return Err("connects: no connection where one is due".into());
            }
            if end.is_some_and(|o| now >= o) {
                if given_up || now >= end.unwrap() + STEP {
                    self.unhang();
                    self.failed();
                    return self.verify();
                }
            } else if given_up {
                return Err("connects: an attempt is given up".into());
            }
        }
        if self.gone.iter().any(|(fd, q)| !over(*fd, q)) {
            return Err("connects: an attempt goes on".into());
        }
        let auto_live = self.live;
        // has the client given up on the connection?
        if auto_live {
            let c = self.conns.last().unwrap();
            if c.fd < 0 {
                return Err("connects: no connection where one is due".into());
            }
            let dead = c.pings.first().map(|t| now - t);
            if c.eof {
                if dead.is_some_and(|d| d >= 2 * KA) || (!c.reading && now - c.stop >= 2 * KA) {
                    self.lost();
                    return self.verify();
                }
                return Err(format!("connection: closed by the client for no reason (last packet {}, unanswered ping for {:?} ms)", c.last, dead));
            }
            if dead.is_some_and(|d| d >= 2 * KA + 2 * STEP) {
                return Err("connection: a dead peer is not noticed".into());
            }
            if !c.reading && now >= c.act + 3 * KA + 2 * STEP {
                return Err("connection: a peer that does not read is not noticed".into());
            }
            if !c.first {
                return Err("server: no CONNECT".into());
            }
        } else if self.conns.iter().any(|c| c.fd >= 0 && !c.eof && c.until.is_none_or(|t| now >= t)) {
            return Err("connection: left open".into());
        }
        for (i, c) in self.conns.iter().enumerate() {
            if i + 1 < self.conns.len() && c.fd >= 0 && !c.eof && c.until.is_none_or(|t| now >= t) {
                return Err("connection: an earlier one is still open".into());
            }
        }
        if self.next.is_some_and(|t| now >= t + STEP) {
            return Err(format!("connects: no attempt though due since {:?}, now {}", self.next, now));
        }
        let l = self.log.lock().unwrap();
        // attempts announced
        let mut pos = vec![0usize];
        for (n, made) in &self.sched {
            let mut to: Vec<usize> = pos.iter().filter(|p| l.attempts.get(**p) == Some(n)).map(|p| p + 1).collect();
            if !made {
                to.extend(&pos);
            }
            to.sort();
            to.dedup();
            pos = to;
        }
        if !pos.contains(&l.attempts.len()) {
            return Err(format!("reconnect attempts announced: {:?}, planned {:?}", l.attempts, self.sched));
        }
        if l.ev != self.want {
            let i = l.ev.iter().zip(&self.want).take_while(|(a, b)| a == b).count();
            return Err(format!("handler: hears {:?} instead of {:?} as number {} ({} and {} in all)", l.ev.get(i), self.want.get(i), i, l.ev.len(), self.want.len()));
        }
        let live = self.live && self.conns.last().is_some_and(|c| c.reading);
        let up = self.up() && live;
        for (k, c) in self.calls.iter_mut().enumerate() {
            if c.done {
                continue;
            }
            let late = c.timeout.is_some_and(|t| now >= c.at + t);
            match &l.res[k] {
                Some(r) => {
                    c.done = true;
                    let ok = match r {
                        Res::Timeout => late,
                        Res::Fail => c.may_fail || c.must_fail,
                        Res::Pong if c.pong_ok => true,
                        Res::Conn(0, _) if c.kind == Kind::Conn && matches!(c.expect, Some(Res::Q0)) => true,
                        r => c.expect.as_ref() == Some(r),
                    };
                    if !ok {
                        return Err(format!("result: {:?} returns {:?} instead of {:?} (may fail: {})", c.kind, r, c.expect, c.may_fail || c.must_fail));
                    }
                }
                None => {
                    if let Some(e) = &c.expect {
                        return Err(format!("hangs: {:?} does not return {:?}", c.kind, e));
                    }
                    if c.must_fail {
                        return Err(format!("hangs: {:?} does not return though nothing can answer it any more", c.kind));
                    }
                    if c.timeout.is_some_and(|t| now >= c.at + t + STEP) {
                        return Err(format!("hangs: {:?} does not return at its timeout", c.kind));
                    }
                    if up && !c.seen && !matches!(c.kind, Kind::Conn | Kind::Ping) {
                        return Err(format!("hangs: {:?} waits, but its request is not under way", c.kind));
                    }
                    if live && c.kind == Kind::Ping && c.pings == 0 {
                        return Err("hangs: Ping waits, but no PINGREQ is under way".to_string());
                    }
                }
            }
        }
        Ok(())
    }
    async fn time(&mut self, ms: u64) -> R<()> {
        let mut left = ms;
        while left > 0 {
            env::vadvance_ms(STEP);
            tokio::time::advance(Duration::from_millis(STEP)).await;
            self.settle().await?;
            left -= STEP;
        }
        Ok(())
    }
    fn connack(&mut self, rc: u8, sp: bool) -> bool {
        let v5 = self.cfg.ver == 5;
        let Some(c) = self.cur() else { return false };
        if c.ack.is_some() || !c.first {
            return false;
        }
        c.ack = Some(rc == 0);
        let mut b = vec![sp as u8, rc];
        if v5 {
            b.push(0);
        }
        self.write(&frame(0x20, &b));
        self.want.push(Ev::Connected(rc, sp));
        for c in self.calls.iter_mut().filter(|c| c.kind == Kind::Conn && !c.done && !c.must_fail && c.expect.is_none()) {
            c.expect = Some(Res::Conn(rc, sp));
        }
        if rc == 0 {
            self.tries = 0;
            if !sp {
                // a new session: what was under way before is lost
                for c in self.calls.iter_mut().filter(|c| !c.done) {
                    c.may_fail = true;
                }
            }
        }
        true
    }
    fn close(&mut self) {
        let tell = self.calls.len() % 2 == 0;
        if let Some(c) = self.cur() {
            if c.fd >= 0 {
                // with or without a word
                if let Some(t) = c.tls.as_mut().filter(|_| tell) {
                    t.send_close_notify();
                    c.flush();
                }
                let fd = c.fd;
                c.fd = -1;
                c.eof = true;
                match c.q.take() {
                    None => unsafe {
                        libc::close(fd);
                    },
                    Some(mut q) => {
                        if tell {
                            q.fin.insert(0);
                        } else {
                            q.close();
                        }
                        datagrams(fd, &mut q, false);
                        self.old.push((fd, q));
                    }
                }
                self.lost();
            }
        }
    }
    fn connect(&mut self, sync: bool) {
        self.wanted = true;
        self.call(Kind::Conn, sync);
        if self.up() {
            self.calls.last_mut().unwrap().expect = Some(Res::Q0); // any success
        } else if !self.live && self.hanging.is_none() {
            self.attempt();
        }
    }
    /// Returns false if the operation makes no sense here.
    async fn op(&mut self, o: u8, settle: bool) -> R<bool> {
        if self.off && !matches!(o, 20 | 21) {
            return Ok(false);
        }
        let now = env::vnow_ms();
        if let Some(c) = self.cur() {
            c.act = now;
        }
        match o {
            0 => self.connect(true),
            1 => {
                self.call(Kind::Pub(0), true);
                self.calls.last_mut().unwrap().expect = Some(Res::Q0);
            }
            2 => self.call(Kind::Pub(1), true),
            3 => self.call(Kind::Pub(2), true),
            4 => self.call(Kind::Sub, true),
            5 => self.call(Kind::Unsub, true),
            6 => {
                self.call(Kind::Ping, true);
                let up = self.up();
                let c = self.calls.last_mut().unwrap();
                if !up {
                    c.must_fail = true;
                }
            }
            7 => {
                let Some(c) = self.client.clone() else { return Ok(false) };
                self.tasks.push(tokio::spawn(async move {
                    let _ = c.disconnect().await;
                }));
                let (live, up) = (self.live, self.up());
                self.wanted = false;
                if self.hanging.is_some() {
                    self.unhang();
                    for c in self.calls.iter_mut().filter(|c| !c.done && c.kind == Kind::Conn) {
                        c.must_fail = true;
                    }
                }
                if let Some(c) = self.cur().filter(|c| !c.reading) {
                    c.until = Some(now + 5000 + STEP);
                }
                if live {
                    self.ended();
                    self.want.push(Ev::Disconnected(None));
                }
                for c in self.calls.iter_mut().filter(|c| !c.done) {
                    c.may_fail = true;
                }
                self.schedule();
                self.tries = 0;
                if settle {
                    self.settle().await?;
                    if live {
                        let c = self.conns.last().unwrap();
                        if up && c.reading && c.last != 14 {
                            return Err(format!("server: a connection ends with packet {} instead of DISCONNECT", c.last));
                        }
                    }
                    return Ok(true);
                }
            }
            8 => {
                for t in self.tasks.drain(..) {
                    t.abort();
                }
                for c in self.calls.iter_mut() {
                    c.done = true;
                }
                tokio::task::yield_now().await;
                tokio::task::yield_now().await;
                let mut c = self.client.take().unwrap();
                for _ in 0..50 {
                    match Arc::try_unwrap(c) {
                        Ok(x) => {
                            let _ = x.shutdown().await;
                            self.off = true;
                            break;
                        }
                        Err(x) => {
                            c = x;
                        }
                    }
                    tokio::task::yield_now().await;
                }
                if !self.off {
                    return Err("harness: the client is in use".into());
                }
                self.unhang();
                if let Some(c) = self.cur().filter(|c| !c.reading) {
                    c.until = Some(now + 5000 + STEP);
                }
                self.live = false;
                self.next = None;
                self.wanted = false;
            }
            9 => self.connect(false),
            10..=12 => {
                if !self.connack(if o == 12 { if self.cfg.ver == 5 { 0x87 } else { 5 } } else { 0 }, o == 11) {
                    return Ok(false);
                }
                if o == 12 {
                    self.close();
                }
            }
            13..=15 => {
                let Some(c) = self.cur() else { return Ok(false) };
                let open: Vec<usize> = (0..c.reqs.len()).filter(|i| c.reqs[*i].typ < 100).collect();
                if open.is_empty() || (o == 14 && open.len() < 2) {
                    return Ok(false);
                }
                let i = if o == 14 { *open.last().unwrap() } else { open[0] };
                if o == 14 && c.reqs[i].typ == 12 {
                    return Ok(false);
                }
                let r = c.reqs.remove(i);
                if o == 15 && r.typ == 12 {
                    return Ok(false);
                }
                self.answer(r, o == 15);
            }
            16 => {
                if !self.live {
                    return Ok(false);
                }
                self.close();
            }
            17 => {
                // a server's DISCONNECT
                if !self.up() || self.cfg.ver != 5 {
                    return Ok(false);
                }
                let why = [0x8e, 0x8b, 0x98, 0x9c][(self.calls.len() + self.conns.len()) % 4];
                self.write(&[0xe0, 1, why]);
                self.want.push(Ev::Disconnected(Some(why)));
                self.lost();
            }
            18 => {
                // messages of every QoS
                if !self.up() {
                    return Ok(false);
                }
                let v5 = self.cfg.ver == 5;
                let mut all = vec![];
                for q in 0..3u8 {
                    self.msgs = self.msgs.wrapping_add(1);
                    let mut b = vec![0, 1, b'm'];
                    if q > 0 {
                        let id = 300 + self.msgs as u16;
                        b.extend(id.to_be_bytes());
                    }
                    if v5 {
                        b.push(0);
                    }
                    b.push(self.msgs);
                    self.want.push(Ev::Msg(vec![self.msgs]));
                    all.extend(frame(0x30 | q << 1, &b));
                }
                self.write(&all);
            }
            19 => {
                // more events at once than the engine keeps
                if !self.up() {
                    return Ok(false);
                }
                let mut all = vec![];
                for i in 0..600u16 {
                    let mut b = vec![0, 1, b'm'];
                    if self.cfg.ver == 5 {
                        b.push(0);
                    }
                    b.push(i as u8);
                    self.want.push(Ev::Msg(vec![i as u8]));
                    all.extend(frame(0x30, &b));
                }
                self.write(&all);
            }
            20 => {
                if settle {
                    return self.time(1000).await.map(|_| true);
                }
            }
            21 => return self.time(KA).await.map(|_| true),
            22 => {
                self.refuse = !self.refuse;
                let r = self.refuse;
                env::net(|n| n.as_mut().unwrap().refuse = r);
            }
            23 | 24 => {
                let on = o == 24;
                if self.auto == on {
                    return Ok(false);
                }
                // one already scheduled may still be made
                if self.next.is_some() {
                    return Ok(false);
                }
                self.auto = on;
                let c = self.client.clone().unwrap();
                self.tasks.push(tokio::spawn(async move {
                    let _ = c.set_auto_reconnect(on).await;
                }));
            }
            25 => {
                // all answers and the end in one go
                let Some(c) = self.cur() else { return Ok(false) };
                let rs: Vec<Req> = std::mem::take(&mut c.reqs);
                let (open, kept): (Vec<Req>, Vec<Req>) = rs.into_iter().partition(|r| r.typ < 100);
                c.reqs = kept;
                if open.is_empty() {
                    return Ok(false);
                }
                for r in open {
                    self.answer(r, false);
                }
                self.close();
            }
            26 => self.call(Kind::Pub(1), false),
            27 => self.call(Kind::Sub, false),
            28 => self.call(Kind::Ping, false),
            29 => {
                // no packet has type 0
                if self.cur().is_none_or(|c| !c.first) {
                    return Ok(false);
                }
                self.write(&[0, 0, 0x20, 2]);
                self.lost();
            }
            30 => {
                // connections do not come about
                self.hang = !self.hang;
                let h = self.hang.then_some(if self.cfg.tls == Tls::No { env::Hang::Connect } else { env::Hang::Later });
                env::net(|n| n.as_mut().unwrap().hang = h);
            }
            31 | 32 => {
                // the one under way comes about, or fails
                let Some((_, fd)) = self.hanging.take() else { return Ok(false) };
                if o == 31 {
                    if self.cfg.tls == Tls::No {
                        drain(fd);
                    }
                    self.live = true;
                    self.conns.push(Conn::new());
                    self.given(fd);
                } else {
                    match self.hq.take() {
                        None => unsafe {
                            libc::close(fd);
                        },
                        Some(mut q) => {
                            q.close();
                            datagrams(fd, &mut q, false);
                            self.old.push((fd, q));
                        }
                    }
                    self.failed();
                }
            }
            33 => {
                // the server stops reading, and goes on
                let Some(c) = self.cur().filter(|c| c.first) else { return Ok(false) };
                c.reading = !c.reading;
                c.stop = now;
            }
            34 => self.call(Kind::Big, true),
            _ => return Ok(false),
        }
        if settle {
            self.settle().await?;
        }
        Ok(true)
    }
}

const K: usize = 35;
const NAMES: [&str; K] = [
    "connect and wait", "publish q0 and wait", "publish q1 and wait", "publish q2 and wait", "subscribe and wait", "unsubscribe and wait", "ping and wait", "disconnect", "shutdown", "connect", "CONNACK", "CONNACK session present",
    "CONNACK refusing", "answer the oldest", "answer the newest", "refuse the oldest", "server closes", "server DISCONNECT", "three messages", "600 messages", "1 s", "5 s", "network up/down", "reconnecting off", "reconnecting on",
    "answer all and close", "publish q1", "subscribe", "ping", "malformed data", "connections hang on/off", "the connection comes about", "the connection fails", "server stops/goes on reading", "publish 300 KB and wait",
];
/// Where histories begin.
const STARTS: [&[u8]; 12] = [
    &[],
    &[0],
    &[0, 10],
    &[0, 10, 2, 4, 6],
    &[0, 10, 3, 13, 5],
    &[0, 10, 2, 3, 4, 16],
    &[0, 10, 26, 27, 16, 20],
    &[22, 9, 20],
    &[0, 10, 7],
    &[30, 0],
    &[0, 10, 33, 34],
    &[0, 10, 2, 30, 16, 20],
];

/// The number of operations that ran, if one of them makes no sense.
fn run1(cfg: usize, start: usize, h: &[u8], l: &mut Local, at: &mut usize) -> R<Option<usize>> {
    env::vclock_off();
    env::vclock_on();
    env::rng_seed(0x70c);
    env::net(|n| *n = Some(env::Net { refuse: false, hang: None, attempts: 0, fresh: vec![] }));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).event_interval(1).build().unwrap();
    let r = rt.block_on(async {
        let mut w = W::new(cfgs()[cfg].clone()).await;
        for (i, o) in STARTS[start].iter().enumerate() {
            w.op(*o, true).await.map_err(|e| format!("{} (at {} of the start)", e, i))?;
        }
        for (i, o) in h.iter().enumerate() {
            *at = i + 1;
            l.steps += 1;
            if !w.op(*o, true).await? {
                return Ok(Some(i));
            }
        }
        *at = h.len();
        // whatever is due comes
        w.time(2000).await.map_err(|e| format!("{} (2 s later)", e))?;
        let g = w.log.lock().unwrap();
        l.outcome(&(cfg, hash(&g.ev), hash(&g.res), g.attempts.len()));
        l.state(&(cfg, w.live, w.up(), w.wanted, w.auto, w.tries, w.next.is_some(), w.calls.iter().filter(|c| !c.done).map(|c| (c.kind, c.seen)).collect::<Vec<_>>()));
        drop(g);
        Ok(None)
    });
    rt.shutdown_background();
    env::net(|n| *n = None);
    env::vclock_off();
    r
}
fn one(ctx: &Ctx, cfg: usize, start: usize, h: &[u8], l: &mut Local) -> Option<usize> {
    let mut c = vec![cfg as u8, start as u8];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let mut at = 0;
    let (n, e) = match guard(|| run1(cfg, start, h, l, &mut at)) {
        Ok(Ok(x)) => return x,
        Ok(Err(e)) => (at, e),
        Err(p) => (h.len(), format!("panic {}", p)),
    };
    let class = e.split(':').next().unwrap().to_string();
    let t01 = matches!(class.as_str(), "result" | "hangs") || class.starts_with("panic");
    if t01 != (ctx.id == "T01") && !class.starts_with("harness") {
        return Some(n.max(1) - 1);
    }
    c.truncate(2 + n);
    let names = |h: &[u8]| h.iter().map(|o| NAMES[*o as usize]).collect::<Vec<_>>();
    let sig: String = e.chars().filter(|c| !c.is_ascii_digit()).take_while(|c| *c != '(').collect();
    ctx.fail(&sigify(&sig), format!("configuration {}, {:?} then {:?}: {}", cfg, names(STARTS[start]), names(&h[..n]), e), &c);
    Some(n.max(1) - 1)
}
pub fn prepare() {
    let _ = rustls::crypto::ring::default_provider().install_default();
    // no platform roots, which take long to load
    std::env::set_var("SSL_CERT_FILE", concat!(env!("CARGO_MANIFEST_DIR"), "/certs/otherca.pem"));
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
}
pub fn explore(ctx: &Ctx) {
    prepare();
    let t = ctx.thorough;
    for cfg in 0..cfgs().len() {
        for start in 0..STARTS.len() {
            let d = if t { 4 } else { 3 } - (cfg >= 4) as usize;
            let t0 = env::real_now_ms();
            if std::env::var("MC_ONLY").is_ok_and(|o| o != cfg.to_string()) {
                continue;
            }
            histories_pruned(ctx, 1, K, d, 2, |_, h, l| one(ctx, cfg, start, h, l));
            if std::env::var("MC_TIME").is_ok() {
                eprintln!("{} {} {} ms {:?}", cfg, start, env::real_now_ms() - t0, ctx.evals);
            }
        }
    }
}
pub fn replay(ctx: &Ctx, c: &[u8]) {
    prepare();
    let mut l = Local::new();
    one(ctx, c[0] as usize, c[1] as usize, &c[2..], &mut l);
}
