//! T03: everything handed to the tokio client gets to the server, and everything the server sends to the handler, complete and
//! in order, however calls, the network's pace, a busy server and the ways to end a connection follow each other.
use crate::env;
use crate::fw::*;
use crate::quic::Srv;
use crate::refcodec::{frame, framing, Framing};
use crate::tok::{datagrams, hup, server_quic, server_tls, Conn, Tls};
use flowsdk::mqtt_client::engine::MqttMessage;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tokio_async_client::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type R<T> = Result<T, String>;
/// A message: what it is made of, its length, and whether it is made of that alone.
type Msg = (u8, usize, bool);
fn msg(p: &[u8]) -> Msg {
    let k = p.first().copied().unwrap_or(0);
    (k, p.len(), p.iter().all(|b| *b == k))
}
const BIG: usize = 300_000;

struct H(Arc<Mutex<Vec<Msg>>>);
#[async_trait::async_trait]
impl TokioMqttEventHandler for H {
    async fn on_message_received(&mut self, p: &MqttMessage) {
        self.0.lock().unwrap().push(msg(&p.payload));
    }
}
enum Do {
    Publish(Vec<u8>, u8),
    Subscribe(String),
    Disconnect,
    Shutdown,
    Drop,
}
#[derive(Clone, Copy, PartialEq)]
enum End {
    No,
    Disconnect,
    Shutdown,
    Closed,
}
#[derive(Clone, Copy)]
struct Cfg {
    tls: Tls,
    ver: u8,
    slow: bool,
}
const CFGS: [Cfg; 8] = [
    Cfg { tls: Tls::No, ver: 5, slow: false },
    Cfg { tls: Tls::No, ver: 4, slow: true },
    Cfg { tls: Tls::Rustls, ver: 5, slow: false },
    Cfg { tls: Tls::Rustls, ver: 4, slow: true },
    Cfg { tls: Tls::Native, ver: 5, slow: false },
    Cfg { tls: Tls::Native, ver: 4, slow: true },
    Cfg { tls: Tls::Quic, ver: 5, slow: false },
    Cfg { tls: Tls::Quic, ver: 4, slow: true },
];
/// The server's side of the network.
struct Side {
    tls: Tls,
    c: Conn,
    out: Vec<u8>, // what the server has not got rid of
    fin: bool,    // it closes after that
}
struct W {
    cfg: Cfg,
    tx: tokio::sync::mpsc::UnboundedSender<Do>,
    heard: Arc<Mutex<Vec<Msg>>>,
    n: Side,
    half: Vec<u8>,        // the rest of a message
    acks: Vec<u8>,        // what comes after that
    over: bool,           // the application has ended it
    calm: bool,           // and the client has heard of that
    next: Option<Msg>,    // which it is
    handed: Vec<(u8, Msg)>,
    got: Vec<(u8, Msg)>,
    sent: Vec<Msg>,
    pids: Vec<u16>,
    end: End,
    last: u8,
    k: u8,
}
impl Drop for Side {
    fn drop(&mut self) {
        if self.c.fd >= 0 {
            unsafe { libc::close(self.c.fd) };
        }
        env::net(|n| {
            for f in n.take().map(|n| n.fresh).unwrap_or_default() {
                unsafe { libc::close(f) };
            }
        });
    }
}
impl Side {
    fn new(tls: Tls) -> Side {
        Side { tls, c: Conn::new(), out: vec![], fin: false }
    }
    fn pump(&mut self) -> R<bool> {
        let fresh = env::net(|n| std::mem::take(&mut n.as_mut().unwrap().fresh));
        for f in fresh {
            if self.c.fd >= 0 {
                unsafe { libc::close(f) };
                return Err("connect: more than once".into());
            }
            self.c.fd = f;
            match self.tls {
                Tls::No => {}
                Tls::Quic => self.c.q = Some(Box::new(Srv::new(server_quic(), 7))),
                _ => {
                    let mut t = rustls::ServerConnection::new(server_tls()).unwrap();
                    t.set_buffer_limit(None);
                    self.c.tls = Some(Box::new(t));
                }
            }
        }
        if self.c.fd < 0 {
            return Ok(false);
        }
        let mut any = self.write();
        if self.c.reading || self.c.q.is_some() {
            any |= self.c.take()?;
        }
        Ok(any)
    }
    /// What the network takes of what the server has to say.
    fn write(&mut self) -> bool {
        let c = &mut self.c;
        if let Some(q) = &mut c.q {
            q.tx.entry(0).or_default().append(&mut self.out);
            if std::mem::take(&mut self.fin) {
                q.fin.insert(0);
            }
            return datagrams(c.fd, q, false);
        }
        let mut any = false;
        if c.tls.is_some() {
            if !self.out.is_empty() {
                use std::io::Write;
                let _ = c.tls.as_mut().unwrap().writer().write_all(&self.out);
                self.out.clear();
            }
            any |= c.flush();
            if self.fin && !c.tls.as_ref().unwrap().wants_write() {
                self.fin = false;
                c.tls.as_mut().unwrap().send_close_notify();
                c.flush();
                unsafe { libc::shutdown(c.fd, libc::SHUT_WR) };
                any = true;
            }
            return any;
        }
        while !self.out.is_empty() {
            let n = unsafe { libc::send(c.fd, self.out.as_ptr() as *const _, self.out.len(), libc::MSG_NOSIGNAL) };
            if n <= 0 {
                break;
            }
            self.out.drain(..n as usize);
            any = true;
        }
        if self.out.is_empty() && std::mem::take(&mut self.fin) {
            unsafe { libc::shutdown(c.fd, libc::SHUT_WR) };
            any = true;
        }
        any
    }
    /// The client has done with it.  One that still has something to send may not be able to say so over QUIC, for all
    /// that its congestion control allows it (quinn-proto then leaves the server to find out).
    fn gone(&self) -> bool {
        self.c.eof || (self.c.q.is_some() && hup(self.c.fd))
    }
    fn all_gone(&self) -> bool {
        self.c.q.as_ref().map_or_else(|| hup(self.c.fd), |q| q.lost.is_some() || hup(self.c.fd))
    }
}
impl W {
    async fn new(cfg: Cfg) -> R<W> {
        let heard = Arc::new(Mutex::new(vec![]));
        let mut o = MqttClientOptions::builder().peer("127.0.0.1:1883").client_id("t").mqtt_version(cfg.ver).keep_alive(3600).retransmission_timeout_ms(600_000).clean_start(true);
        let mut c = TokioAsyncClientConfig::builder().auto_reconnect(false);
        match cfg.tls {
            Tls::No => {}
            Tls::Rustls => {
                let r = flowsdk::mqtt_client::transport::RustlsTlsConfig::builder().use_system_roots(false).add_roots_from_pem(crate::tls::CA).unwrap().build();
                o = o.peer("mqtts://127.0.0.1:8883").rustls_tls_config(r);
            }
            Tls::Native => {
                let r = flowsdk::mqtt_client::transport::tls::TlsConfig::builder().add_root_certificate(native_tls::Certificate::from_pem(crate::tls::CA).unwrap()).build();
                o = o.peer("mqtts://127.0.0.1:8883").tls_config(r);
            }
            Tls::Quic => {
                o = o.peer(format!("quic://127.0.0.1:{}", env::PEER));
                c = c.quic_custom_root_ca_pem(String::from_utf8(crate::tls::CA.to_vec()).unwrap());
            }
        }
        let client = TokioAsyncMqttClient::new(o.build(), Box::new(H(heard.clone())), c.build()).await.unwrap();
        client.connect().await.unwrap();
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let mut w = W { cfg, tx, heard, n: Side::new(cfg.tls), half: vec![], acks: vec![], over: false, calm: false, next: None, handed: vec![], got: vec![], sent: vec![], pids: vec![], end: End::No, last: 0, k: 0 };
        w.settle().await?;
        if w.last != 1 {
            return Err("connect: no CONNECT".into());
        }
        w.n.out.extend(frame(0x20, if cfg.ver == 5 { &[0, 0, 0] } else { &[0, 0] }));
        w.settle().await?;
        if cfg.slow {
            w.n.c.limit = 5000;
        }
        // the application's calls, one after the other
        tokio::spawn(async move {
            while let Some(d) = rx.recv().await {
                let _ = match d {
                    Do::Publish(p, q) => client.publish("t", &p, q, false).await,
                    Do::Subscribe(t) => client.subscribe(&t, 1).await,
                    Do::Disconnect => client.disconnect().await,
                    Do::Shutdown => {
                        let _ = client.shutdown().await;
                        return;
                    }
                    Do::Drop => return,
                };
            }
            std::future::pending::<()>().await
        });
        Ok(w)
    }
    async fn settle(&mut self) -> R<()> {
        let mut idle = 0;
        let mut n = 0;
        while idle < 12 {
            tokio::task::yield_now().await;
            idle += 1;
            let m = self.heard.lock().unwrap().len();
            if self.pump()? || m != n {
                n = m;
                idle = 0;
            }
        }
        self.calm = self.over;
        self.verify()
    }
    fn pump(&mut self) -> R<bool> {
        let mut any = self.n.pump()?;
        while let Framing::Frame { hdr, total } = framing(&self.n.c.buf) {
            if self.n.c.buf.len() < total {
                break;
            }
            let p: Vec<u8> = self.n.c.buf.drain(..total).collect();
            self.received(&p, hdr)?;
        }
        if self.half.is_empty() {
            self.n.out.append(&mut self.acks);
        }
        any |= self.n.c.fd >= 0 && self.n.write();
        Ok(any)
    }
    fn received(&mut self, p: &[u8], hdr: usize) -> R<()> {
        let v5 = self.cfg.ver == 5;
        let t = p[0] >> 4;
        if self.last == 14 {
            return Err(format!("order: packet {:02x} after DISCONNECT", p[0]));
        }
        self.last = t;
        let u16at = |k: usize| p[k] as u16 * 256 + p[k + 1] as u16;
        match t {
            3 => {
                let qos = p[0] >> 1 & 3;
                let mut at = hdr + 2 + u16at(hdr) as usize;
                let pid = if qos > 0 { u16at(at) } else { 0 };
                at += 2 * (qos > 0) as usize + v5 as usize;
                if qos > 0 && self.pids.contains(&pid) {
                    return Err("order: a message is sent twice over one connection".into());
                }
                if qos > 0 {
                    self.pids.push(pid);
                    self.acks.extend(frame(if qos == 1 { 0x40 } else { 0x50 }, &p[at - v5 as usize - 2..][..2]));
                }
                self.got.push((qos, msg(&p[at..])));
            }
            6 => self.acks.extend(frame(0x70, &p[hdr..hdr + 2])),
            8 => {
                let at = hdr + 2 + v5 as usize;
                let f = &p[at + 2..at + 2 + u16at(at) as usize];
                self.got.push((8, msg(f)));
                let mut b = p[hdr..hdr + 2].to_vec();
                if v5 {
                    b.push(0);
                }
                b.push(1);
                self.acks.extend(frame(0x90, &b));
            }
            1 | 4 | 5 | 7 | 14 => {}
            _ => return Err(format!("order: packet {:02x}", p[0])),
        }
        Ok(())
    }
    fn verify(&self) -> R<()> {
        let same = |what: &str, a: &[(u8, Msg)], b: &[(u8, Msg)]| {
            let i = a.iter().zip(b).take_while(|(a, b)| a == b).count();
            if i < a.len() {
                return Err(format!("{}: {:?} instead of {:?} as number {}", what, a[i], b.get(i), i));
            }
            Ok(())
        };
        same("server gets", &self.got, &self.handed)?;
        let h: Vec<(u8, Msg)> = self.heard.lock().unwrap().iter().map(|m| (9, *m)).collect();
        let s: Vec<(u8, Msg)> = self.sent.iter().map(|m| (9, *m)).collect();
        same("handler hears", &h, &s)?;
        if self.end == End::No && self.n.c.eof {
            return Err("connection: closed by the client for no reason".into());
        }
        Ok(())
    }
    async fn time(&mut self, ms: u64) -> R<()> {
        env::vadvance_ms(ms);
        tokio::time::advance(Duration::from_millis(ms)).await;
        self.settle().await
    }
    fn say(&mut self, lens: &[usize], half: bool) {
        self.n.out.append(&mut self.half);
        self.n.out.append(&mut self.acks);
        self.sent.extend(self.next.take());
        for n in lens {
            self.k += 1;
            let m = (self.k, *n, true);
            let mut b = vec![0, 1, b'm'];
            if self.cfg.ver == 5 {
                b.push(0);
            }
            b.extend(vec![self.k; *n]);
            let f = frame(0x30, &b);
            if half {
                self.n.out.extend(&f[..f.len() / 2]);
                self.half = f[f.len() / 2..].to_vec();
                self.next = Some(m);
            } else {
                self.n.out.extend(f);
                self.sent.push(m);
            }
        }
    }
    fn publish(&mut self, qos: u8, n: usize) {
        self.k += 1;
        self.handed.push((qos, (self.k, n, true)));
        let _ = self.tx.send(Do::Publish(vec![self.k; n], qos));
    }
    async fn op(&mut self, o: u8) -> R<bool> {
        if self.over && !(8..=11).contains(&o) && o != 15 || self.end == End::Closed && matches!(o, 5..=7 | 11) {
            return Ok(false);
        }
        match o {
            0 => self.publish(0, 3),
            1 => self.publish(0, BIG),
            2 => self.publish(1, 3),
            3 => self.publish(2, 3),
            4 => {
                self.k += 1;
                let t = "s".repeat(self.k as usize);
                self.handed.push((8, msg(t.as_bytes())));
                let _ = self.tx.send(Do::Subscribe(t));
            }
            5 => self.say(&[3, 2, 1], false),
            6 => self.say(&[BIG], false),
            7 => self.say(&[40], true),
            8 => {
                tokio::task::yield_now().await;
                self.pump()?;
            }
            9 => self.settle().await?,
            10 => self.n.c.reading = !self.n.c.reading,
            11 => {
                self.n.fin = true;
                if !self.calm || self.n.c.q.is_some() {
                    self.end = End::Closed;
                }
            }
            12..=14 => {
                let _ = self.tx.send([Do::Disconnect, Do::Shutdown, Do::Drop].into_iter().nth(o as usize - 12).unwrap());
                self.over = true;
                if self.end == End::No {
                    self.end = if o == 12 { End::Disconnect } else { End::Shutdown };
                }
            }
            15 => self.time(500).await?,
            _ => {
                for _ in 0..12 {
                    for ms in [30, 30, 14_940] {
                        self.time(ms).await?;
                    }
                }
            }
        }
        Ok(true)
    }
    /// Everything has got where it should in the end.
    async fn finish(&mut self) -> R<()> {
        self.settle().await?;
        self.n.c.reading = true;
        if self.end != End::Closed {
            self.say(&[], false);
        }
        let mut n = 0;
        loop {
            self.settle().await?;
            let all = self.got.len() == self.handed.len() || self.end == End::Closed;
            let heard = self.heard.lock().unwrap().len() == self.sent.len() || self.over;
            let eof = self.n.gone() == (self.end != End::No);
            if all && heard && eof {
                break;
            }
            n += 1;
            if n > 40 || (self.n.gone() && n > 3) {
                return Err(if !all {
                    format!("server gets: {} of {} things handed over{}", self.got.len(), self.handed.len(), if self.n.gone() { " before the client closes" } else { "" })
                } else if !heard {
                    format!("handler hears: {} of {} messages", self.heard.lock().unwrap().len(), self.sent.len())
                } else {
                    "connection: left open".into()
                });
            }
            self.time(50).await?;
        }
        if self.end == End::Disconnect && self.last != 14 {
            return Err(format!("server gets: no DISCONNECT at the end, but packet {}", self.last));
        }
        // what the client has no use for any more is gone once the server closes as well
        if self.end != End::No {
            self.n.fin = true;
            let mut n = 0;
            while !self.n.all_gone() {
                n += 1;
                if n > 20 {
                    return Err("connection: left open by half".into());
                }
                self.time(50).await?;
            }
        }
        Ok(())
    }
}
const K: usize = 17;
const NAMES: [&str; K] = [
    "publish q0", "publish q0 300 KB", "publish q1", "publish q2", "subscribe", "server sends three messages", "server sends 300 KB", "server sends half a message", "one turn", "settled", "server stops/goes on reading", "server closes", "disconnect", "shutdown", "client dropped",
    "500 ms",
    "three minutes",
];
pub fn in_memory<T>(f: impl std::future::Future<Output = T>) -> T {
    env::vclock_off();
    env::vclock_on();
    env::rng_seed(0x70c);
    env::net(|n| *n = Some(env::Net { refuse: false, hang: None, attempts: 0, fresh: vec![] }));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).event_interval(1).build().unwrap();
    let r = rt.block_on(f);
    rt.shutdown_background();
    env::net(|n| *n = None);
    env::vclock_off();
    r
}
fn run1(cfg: usize, h: &[u8], l: &mut Local, at: &mut usize) -> R<Option<usize>> {
    in_memory(async {
        let mut w = W::new(CFGS[cfg]).await?;
        for (i, o) in h.iter().enumerate() {
            *at = i + 1;
            l.steps += 1;
            if !w.op(*o).await? {
                return Ok(Some(i));
            }
        }
        l.state(&(cfg, w.got.len(), w.handed.len(), w.sent.len(), w.heard.lock().unwrap().len(), w.n.c.reading, w.n.c.eof, w.n.out.len()));
        w.finish().await?;
        l.outcome(&(cfg, &w.got, &w.sent, w.end as u8, w.last));
        Ok(None)
    })
}
fn one(ctx: &Ctx, cfg: usize, h: &[u8], l: &mut Local) -> Option<usize> {
    let mut c = vec![cfg as u8];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let mut at = 0;
    let (n, e) = match guard(|| run1(cfg, h, l, &mut at)) {
        Ok(Ok(x)) => return x,
        Ok(Err(e)) => (at, e),
        Err(p) => (h.len(), format!("panic {}", p)),
    };
    c.truncate(1 + n);
    let names: Vec<&str> = h[..n].iter().map(|o| NAMES[*o as usize]).collect();
    let sig: String = e.chars().filter(|c| !c.is_ascii_digit()).take_while(|c| *c != '(').collect();
    ctx.fail(&sigify(&format!("{:?} {}", CFGS[cfg].tls, sig)), format!("{:?}, MQTT version {}, slow network {}; {:?}: {}", CFGS[cfg].tls, CFGS[cfg].ver, CFGS[cfg].slow, names, e), &c);
    Some(n.max(1) - 1)
}

// ---- the transports themselves ----
enum Use {
    Write(Vec<u8>),
    Read(usize),
    ReadEnd,
    Shut,
    Close,
}
#[derive(Default)]
struct Seen {
    heard: Vec<u8>,
    end: bool,
    done: usize,
    errors: Vec<String>,
}
async fn dial(tls: Tls) -> Result<flowsdk::mqtt_client::transport::BoxedTransport, String> {
    use flowsdk::mqtt_client::transport::{quic::*, tcp::TcpTransport, tls::*, RustlsTlsConfig, RustlsTlsTransport, Transport};
    let e = |e: flowsdk::mqtt_client::transport::TransportError| e.to_string();
    Ok(match tls {
        Tls::No => Box::new(TcpTransport::connect("127.0.0.1:1883").await.map_err(e)?),
        Tls::Rustls => {
            let c = RustlsTlsConfig::builder().use_system_roots(false).add_roots_from_pem(crate::tls::CA).unwrap().build();
            Box::new(RustlsTlsTransport::connect_with_config("127.0.0.1:8883", c).await.map_err(e)?)
        }
        Tls::Native => {
            let c = TlsConfig::builder().add_root_certificate(native_tls::Certificate::from_pem(crate::tls::CA).unwrap()).build();
            Box::new(TlsTransport::connect_with_config("127.0.0.1:8883", &c).await.map_err(e)?)
        }
        Tls::Quic => {
            let c = QuicConfig::builder().alpn("mqtt").custom_roots_from_pem(crate::tls::CA).map_err(e)?;
            Box::new(QuicTransport::connect_with_config(&format!("127.0.0.1:{}", env::PEER), c.build()).await.map_err(e)?)
        }
    })
}
const RAW: [&str; 12] = ["write 3 bytes", "write 300 KB", "read what the server has sent", "shut down", "close", "server sends 3 bytes", "server sends 300 KB", "one turn", "settled", "server stops/goes on reading", "server closes", "three minutes"];
struct Raw {
    n: Side,
    tx: tokio::sync::mpsc::UnboundedSender<Use>,
    seen: Arc<Mutex<Seen>>,
    handed: Vec<u8>,
    sent: Vec<u8>,
    asked: usize,
    wanted: usize, // what the latest read has been asked for, in all
    k: u8,
    shut: bool,
    close: bool,
    theirs: bool,
    lax: bool, // a QUIC connection closes while the server does not read: what it has received does not count
}
impl Raw {
    async fn new(cfg: Cfg) -> R<Raw> {
        let seen = Arc::new(Mutex::new(Seen::default()));
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let s = seen.clone();
        tokio::spawn(async move {
            use tokio::io::{AsyncReadExt, AsyncWriteExt};
            let mut t = match dial(cfg.tls).await {
                Ok(t) => t,
                Err(e) => return s.lock().unwrap().errors.push(format!("connect: {}", e)),
            };
            s.lock().unwrap().done += 1;
            let mut b = vec![0; 10_000];
            while let Some(u) = rx.recv().await {
                let r = match &u {
                    Use::Write(p) => match t.write_all(p).await {
                        Ok(()) => t.flush().await,
                        e => e,
                    },
                    Use::Read(_) | Use::ReadEnd => {
                        let n = if let Use::Read(n) = u { n } else { usize::MAX };
                        loop {
                            let left = n.saturating_sub(s.lock().unwrap().heard.len());
                            if left == 0 {
                                break Ok(());
                            }
                            let k = b.len().min(left);
                            match t.read(&mut b[..k]).await {
                                Ok(0) => {
                                    s.lock().unwrap().end = true;
                                    break Ok(());
                                }
                                Ok(k) => s.lock().unwrap().heard.extend(&b[..k]),
                                Err(e) => break Err(e),
                            }
                        }
                    }
                    Use::Shut => t.shutdown().await,
                    Use::Close => {
                        if let Err(e) = t.close().await {
                            s.lock().unwrap().errors.push(format!("close: {}", e));
                        }
                        drop(t);
                        s.lock().unwrap().done += 1;
                        return;
                    }
                };
                let mut s = s.lock().unwrap();
                if let Err(e) = r {
                    s.errors.push(format!("{}: {}", if matches!(u, Use::Write(_)) { "write" } else if matches!(u, Use::Shut) { "shutdown" } else { "read" }, e));
                }
                s.done += 1;
            }
            std::future::pending::<()>().await
        });
        let mut w = Raw { n: Side::new(cfg.tls), tx, seen, handed: vec![], sent: vec![], asked: 1, wanted: 0, k: 0, shut: false, close: false, theirs: false, lax: false };
        w.settle().await?;
        if w.seen.lock().unwrap().done != 1 {
            return Err(format!("connect: {:?}", w.seen.lock().unwrap().errors));
        }
        if cfg.tls == Tls::Quic {
            // the server learns of a stream with its first byte
            w.ask(Use::Write(vec![0]));
            w.handed.push(0);
            w.settle().await?;
        }
        if cfg.slow {
            w.n.c.limit = 5000;
        }
        Ok(w)
    }
    fn ask(&mut self, u: Use) {
        self.asked += 1;
        let _ = self.tx.send(u);
    }
    async fn settle(&mut self) -> R<()> {
        let mut idle = 0;
        let mut n = (0, 0);
        while idle < 12 {
            tokio::task::yield_now().await;
            idle += 1;
            let m = {
                let s = self.seen.lock().unwrap();
                (s.heard.len(), s.done)
            };
            if self.n.pump()? || m != n {
                n = m;
                idle = 0;
            }
        }
        let s = self.seen.lock().unwrap();
        if !self.handed.starts_with(&self.n.c.buf) {
            return Err("server gets: other bytes than were written".into());
        }
        if !self.sent.starts_with(&s.heard) {
            return Err("client reads: other bytes than were sent".into());
        }
        if s.end && !self.theirs {
            return Err("client reads: an end nobody made".into());
        }
        if !self.theirs && !s.errors.is_empty() {
            return Err(format!("error: {:?}", s.errors));
        }
        if !self.shut && !self.close && !self.theirs && self.n.gone() {
            return Err("connection: closed by the client for no reason".into());
        }
        Ok(())
    }
    async fn op(&mut self, o: u8) -> R<bool> {
        if self.close && o < 5 || self.shut && (o < 2 || o == 3) || self.theirs && matches!(o, 5 | 6 | 10) {
            return Ok(false);
        }
        self.k += 1;
        let n = [3, BIG][matches!(o, 1 | 6) as usize];
        match o {
            0 | 1 => {
                self.handed.extend(vec![self.k; n]);
                self.ask(Use::Write(vec![self.k; n]));
            }
            2 => {
                if self.wanted == self.sent.len() {
                    return Ok(false);
                }
                self.wanted = self.sent.len();
                self.ask(Use::Read(self.wanted));
            }
            3 => {
                self.shut = true;
                self.ask(Use::Shut);
            }
            4 => {
                self.close = true;
                self.ask(Use::Close);
            }
            5 | 6 => {
                self.sent.extend(vec![self.k; n]);
                self.n.out.extend(vec![self.k; n]);
            }
            7 => {
                tokio::task::yield_now().await;
                self.n.pump()?;
            }
            8 => self.settle().await?,
            9 => self.n.c.reading = !self.n.c.reading,
            10 => {
                self.n.fin = true;
                self.theirs = true;
            }
            _ => {
                for _ in 0..12 {
                    for ms in [30, 30, 14_940] {
                        tick(ms).await;
                        self.settle().await?;
                    }
                }
            }
        }
        self.lax |= self.close && !self.n.c.reading && self.n.c.q.is_some();
        Ok(true)
    }
    async fn finish(&mut self) -> R<()> {
        self.settle().await?;
        self.n.c.reading = true;
        if !self.close {
            self.ask(if self.theirs { Use::ReadEnd } else { Use::Read(self.sent.len()) });
        }
        let mut n = 0;
        loop {
            self.settle().await?;
            let g = self.seen.lock().unwrap();
            let (done, heard) = (g.done == self.asked, self.close || g.heard.len() == self.sent.len() && g.end == self.theirs);
            let e = format!("{:?}", g.errors);
            drop(g);
            let got = self.n.c.buf.len() == self.handed.len() || self.theirs || self.lax;
            let eof = self.n.gone() == (self.shut || self.close) || self.theirs;
            if done && heard && got && eof {
                return Ok(());
            }
            n += 1;
            if n > 40 {
                return Err(if !heard {
                    format!("client reads: not everything ({})", e)
                } else if !got {
                    format!("server gets: {} of {} bytes", self.n.c.buf.len(), self.handed.len())
                } else if !eof {
                    "connection: no end where one is due".into()
                } else {
                    format!("error: something does not return ({})", e)
                });
            }
            tick(50).await;
        }
    }
}
async fn tick(ms: u64) {
    env::vadvance_ms(ms);
    tokio::time::advance(Duration::from_millis(ms)).await;
}
fn one_raw(ctx: &Ctx, cfg: usize, h: &[u8], l: &mut Local) -> Option<usize> {
    let mut c = vec![100 + cfg as u8];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let mut at = 0;
    let (n, e) = match guard(|| {
        in_memory(async {
            let mut w = Raw::new(CFGS[cfg]).await?;
            for (i, o) in h.iter().enumerate() {
                at = i + 1;
                l.steps += 1;
                if !w.op(*o).await? {
                    return Ok(Some(i));
                }
            }
            l.state(&(cfg, w.handed.len(), w.n.c.buf.len(), w.sent.len(), w.seen.lock().unwrap().heard.len(), w.n.c.reading, w.n.c.eof));
            w.finish().await?;
            l.outcome(&(cfg, w.handed.len(), w.sent.len(), w.seen.lock().unwrap().errors.len(), w.shut, w.close, w.theirs));
            Ok(None)
        })
    }) {
        Ok(Ok(x)) => return x,
        Ok(Err(e)) => (at, e),
        Err(p) => (h.len(), format!("panic {}", p)),
    };
    c.truncate(1 + n);
    let names: Vec<&str> = h[..n].iter().map(|o| RAW[*o as usize]).collect();
    let sig: String = e.chars().filter(|c| !c.is_ascii_digit()).take_while(|c| *c != '(').collect();
    ctx.fail(&sigify(&format!("{:?} transport {}", CFGS[cfg].tls, sig)), format!("{:?} transport, slow network {}; {:?}: {}", CFGS[cfg].tls, CFGS[cfg].slow, names, e), &c);
    Some(n.max(1) - 1)
}

pub fn explore(ctx: &Ctx) {
    crate::tok::prepare();
    for cfg in 0..CFGS.len() {
        if std::env::var("MC_ONLY").is_ok_and(|o| o != cfg.to_string()) {
            continue;
        }
        let t0 = env::real_now_ms();
        let native = CFGS[cfg].tls == Tls::Native;
        let d = if ctx.thorough { 5 } else { 4 } - (native || cfg == 7) as usize;
        // a connection over QUIC may time out
        let q = (CFGS[cfg].tls != Tls::Quic) as usize;
        histories_pruned(ctx, 1, K - q, d, 2, |_, h, l| one(ctx, cfg, h, l));
        histories_pruned(ctx, 1, RAW.len() - q, d, 2, |_, h, l| one_raw(ctx, cfg, h, l));
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{} {} ms {:?}", cfg, env::real_now_ms() - t0, ctx.evals);
        }
    }
}
pub fn replay(ctx: &Ctx, c: &[u8]) {
    crate::tok::prepare();
    let mut l = Local::new();
    if c[0] >= 100 {
        one_raw(ctx, c[0] as usize - 100, &c[1..], &mut l);
        return;
    }
    one(ctx, c[0] as usize, &c[1..], &mut l);
}
