//! T04: the QUIC client of tokio's carries out every command and hands out every event, over a network in memory.
use crate::env;
use crate::fw::*;
use crate::quic::Srv;
use crate::refcodec::{frame, framing, Framing};
use crate::tok::{datagrams, server_quic};
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::engine::MqttEvent;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tokio_quic_client::TokioQuicMqttClient;
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type R<T> = Result<T, String>;
type Msg = (u8, usize, bool);
fn msg(p: &[u8]) -> Msg {
    let k = p.first().copied().unwrap_or(0);
    (k, p.len(), p.iter().all(|b| *b == k))
}
const BIG: usize = 300_000;

enum Do {
    Publish(u8, usize, u8),
    Subscribe(u8),
    Unsubscribe(u8),
    Connect,
    Rebind,
    Disconnect,
    Read,
    Drop,
}
/// What the application learns.
#[derive(Clone, Debug, PartialEq, Hash)]
enum Ev {
    Connected,
    Disconnected,
    Msg(Msg),
    Published(u16, u8),
    Subscribed(u16, u8),
    Unsubscribed(u16, u8),
    Closed,
    Reconnect,
    Other(String),
}
#[derive(Default)]
struct Seen {
    done: usize,
    ev: Vec<Ev>,
    ids: BTreeMap<u8, u16>, // of what was published and so on
    errors: Vec<String>,
    over: bool,
}
fn ev(e: MqttEvent) -> Option<Ev> {
    Some(match e {
        MqttEvent::Connected(r) if r.reason_code == 0 => Ev::Connected,
        MqttEvent::Disconnected(_) => Ev::Disconnected,
        MqttEvent::MessageReceived(m) => Ev::Msg(msg(&m.payload)),
        MqttEvent::Published(r) => Ev::Published(r.packet_id.unwrap_or(0), r.reason_code.unwrap_or(255)),
        MqttEvent::Subscribed(r) => Ev::Subscribed(r.packet_id, r.reason_codes[0]),
        MqttEvent::Unsubscribed(r) => Ev::Unsubscribed(r.packet_id, r.reason_codes.first().copied().unwrap_or(0)),
        MqttEvent::TransportClosed { .. } => Ev::Closed,
        MqttEvent::ReconnectNeeded | MqttEvent::ReconnectScheduled { .. } => Ev::Reconnect,
        MqttEvent::PublishReceived { .. } | MqttEvent::PubRelReceived { .. } => return None,
        e => Ev::Other(format!("{:?}", e)),
    })
}
async fn carry_out(c: &mut TokioQuicMqttClient, d: Do, seen: &Mutex<Seen>) -> Result<(), String> {
    let e = |e: Box<dyn std::error::Error + Send + Sync>| e.to_string();
    let id = |k: u8, id: Option<u16>| {
        if let Some(id) = id {
            seen.lock().unwrap().ids.insert(k, id);
        }
    };
    match d {
        Do::Publish(k, n, q) => id(k, c.publish(PublishCommand::simple("t", vec![k; n], q, false)).await.map_err(e)?),
        Do::Subscribe(k) => id(k, Some(c.subscribe(SubscribeCommand::single("s".repeat(k as usize), 1)).await.map_err(e)?)),
        Do::Unsubscribe(k) => id(k, Some(c.unsubscribe(UnsubscribeCommand::from_topics(vec!["s".repeat(k as usize)])).await.map_err(e)?)),
        Do::Connect => c.connect(([127, 0, 0, 1], env::PEER).into(), "localhost".into(), crypto()).await.map_err(e)?,
        Do::Rebind => {
            c.rebind(([127, 0, 0, 1], 0).into()).await.map_err(e)?;
        }
        Do::Disconnect => c.disconnect().await.map_err(e)?,
        Do::Read => loop {
            let mut f = std::pin::pin!(c.next_event());
            match std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await {
                std::task::Poll::Ready(Some(x)) => seen.lock().unwrap().ev.extend(ev(x)),
                std::task::Poll::Ready(None) => {
                    seen.lock().unwrap().over = true;
                    break;
                }
                std::task::Poll::Pending => break,
            }
        },
        Do::Drop => {}
    }
    Ok(())
}
fn crypto() -> rustls::ClientConfig {
    let mut c = crate::tls::client_cfg(crate::tls::CA, false);
    c.resumption = rustls::client::Resumption::disabled();
    c.alpn_protocols = vec![b"mqtt".to_vec()];
    c
}
struct W {
    ver: u8,
    tx: tokio::sync::mpsc::UnboundedSender<Do>,
    seen: Arc<Mutex<Seen>>,
    asked: usize,
    fds: Vec<i32>,
    q: Srv,
    buf: BTreeMap<u64, Vec<u8>>,
    gen: usize,
    handed: [Vec<(u8, Msg)>; 2], // publishes; subscribes and unsubscribes
    got: [Vec<(u8, Msg)>; 2],
    sent: Vec<Msg>,
    want: [Vec<Ev>; 2], // answers on either stream
    rel: BTreeMap<u16, u8>,
    connects: usize,
    disconnects: usize,
    k: u8,
    base: u8,       // all that was asked for up to this belongs to earlier connections
    up: bool,       // as far as the model goes
    left: bool,     // by a DISCONNECT
    dropped: bool,
    lax: bool,
    owed: [usize; 3], // messages and answers that are certain to arrive
    ended: usize,   // connections that have
    began: usize,
}
impl Drop for W {
    fn drop(&mut self) {
        for f in self.fds.drain(..) {
            unsafe { libc::close(f) };
        }
        env::net(|n| {
            for f in n.take().map(|n| n.fresh).unwrap_or_default() {
                unsafe { libc::close(f) };
            }
        });
    }
}
impl W {
    async fn new(ver: u8) -> R<W> {
        let o = MqttClientOptions::builder().peer("127.0.0.1:14567").client_id("t").mqtt_version(ver).keep_alive(3600).retransmission_timeout_ms(600_000).clean_start(true).build();
        let mut client = TokioQuicMqttClient::new(o).map_err(|e| e.to_string())?;
        let seen = Arc::new(Mutex::new(Seen::default()));
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let s = seen.clone();
        tokio::spawn(async move {
            while let Some(d) = rx.recv().await {
                let over = matches!(d, Do::Drop);
                let r = carry_out(&mut client, d, &s).await;
                let mut s = s.lock().unwrap();
                s.errors.extend(r.err());
                s.done += 1;
                if over {
                    return;
                }
            }
        });
        let mut w = W {
            ver,
            tx,
            seen,
            asked: 0,
            fds: vec![],
            q: Srv::new(server_quic(), 7),
            buf: BTreeMap::new(),
            gen: 0,
            handed: Default::default(),
            got: Default::default(),
            sent: vec![],
            want: Default::default(),
            rel: BTreeMap::new(),
            connects: 0,
            disconnects: 0,
            k: 0,
            base: 0,
            up: false,
            left: false,
            dropped: false,
            lax: false,
            owed: [0; 3],
            ended: 0,
            began: 0,
        };
        w.connect();
        w.calm().await?;
        if w.connects != 1 {
            return Err(format!("server: {} CONNECTs", w.connects));
        }
        Ok(w)
    }
    fn connect(&mut self) {
        self.up = true;
        self.left = false;
        self.base = self.k;
        self.began += 1;
        self.handed = Default::default();
        self.got = Default::default();
        self.ask(Do::Connect);
    }
    fn ask(&mut self, d: Do) {
        self.asked += 1;
        let _ = self.tx.send(d);
    }
    async fn settle(&mut self) -> R<()> {
        let (mut idle, mut n) = (0, (0, 0));
        while idle < 10 {
            tokio::task::yield_now().await;
            idle += 1;
            let m = {
                let s = self.seen.lock().unwrap();
                (s.done, s.ev.len())
            };
            if self.pump()? || m != n {
                n = m;
                idle = 0;
            }
        }
        self.verify()
    }
    async fn time(&mut self, ms: u64) -> R<()> {
        env::vadvance_ms(ms);
        tokio::time::advance(Duration::from_millis(ms)).await;
        self.settle().await
    }
    async fn calm(&mut self) -> R<()> {
        for _ in 0..6 {
            self.time(10).await?;
        }
        Ok(())
    }
    /// Until nothing is under way.
    async fn quiet(&mut self) -> R<()> {
        let mut n = 0;
        while n < 20 && self.q.reading && (0..2).any(|i| self.got[i].len() < self.handed[i].len()) {
            n += 1;
            self.calm().await?;
        }
        for _ in 0..if self.fds.len() > 1 { 6 } else { 0 } {
            // what went to an earlier address is sent again
            self.time(500).await?;
        }
        self.calm().await
    }
    fn pump(&mut self) -> R<bool> {
        self.fds.extend(env::net(|n| std::mem::take(&mut n.as_mut().unwrap().fresh)));
        let mut any = false;
        for i in 0..self.fds.len() {
            // what is old is only listened to
            any |= datagrams(self.fds[i], &mut self.q, i + 1 < self.fds.len());
        }
        if self.q.gen != self.gen {
            self.gen = self.q.gen;
            self.buf.clear();
            self.rel.clear();
        }
        for (k, v) in &mut self.q.rx {
            self.buf.entry(*k).or_default().append(v);
        }
        let ids: Vec<u64> = self.buf.keys().copied().collect();
        for id in ids {
            while let Framing::Frame { hdr, total } = framing(&self.buf[&id]) {
                if self.buf[&id].len() < total {
                    break;
                }
                let p: Vec<u8> = self.buf.get_mut(&id).unwrap().drain(..total).collect();
                self.received(id, &p, hdr)?;
                any = true;
            }
        }
        Ok(any)
    }
    fn received(&mut self, id: u64, p: &[u8], hdr: usize) -> R<()> {
        let v5 = self.ver == 5;
        let t = p[0] >> 4;
        let u16at = |k: usize| p[k] as u16 * 256 + p[k + 1] as u16;
        let out = match t {
            1 => {
                self.connects += 1;
                if id != 0 {
                    return Err("server: CONNECT on a stream of its own".into());
                }
                frame(0x20, if v5 { &[0, 0, 0] } else { &[0, 0] })
            }
            3 => {
                let qos = p[0] >> 1 & 3;
                let mut at = hdr + 2 + u16at(hdr) as usize;
                let pid = if qos > 0 { u16at(at) } else { 0 };
                at += 2 * (qos > 0) as usize + v5 as usize;
                let m = msg(&p[at..]);
                if m.0 > self.base {
                    self.got[0].push((qos, m));
                    if qos == 1 {
                        self.want[0].push(Ev::Published(pid, 0));
                    }
                    self.rel.insert(pid, qos);
                }
                match qos {
                    0 => vec![],
                    1 => frame(0x40, &pid.to_be_bytes()),
                    _ => frame(0x50, &pid.to_be_bytes()),
                }
            }
            6 => {
                let pid = u16at(hdr);
                if self.rel.remove(&pid) == Some(2) {
                    self.want[0].push(Ev::Published(pid, 0));
                }
                frame(0x70, &pid.to_be_bytes())
            }
            8 | 10 => {
                let pid = u16at(hdr);
                let at = hdr + 2 + v5 as usize;
                let m = msg(&p[at + 2..at + 2 + u16at(at) as usize]);
                let mut b = pid.to_be_bytes().to_vec();
                if v5 {
                    b.push(0);
                }
                if t == 8 || v5 {
                    b.push((t == 8) as u8);
                }
                if m.1 > self.base as usize {
                    self.got[1].push((t, m));
                    self.want[1].push(if t == 8 { Ev::Subscribed(pid, 1) } else { Ev::Unsubscribed(pid, 0) });
                }
                frame(if t == 8 { 0x90 } else { 0xb0 }, &b)
            }
            14 => {
                self.disconnects += 1;
                vec![]
            }
            12 => vec![0xd0, 0],
            4 | 5 | 7 => vec![],
            _ => return Err(format!("server: packet {:02x}", p[0])),
        };
        self.q.tx.entry(id).or_default().extend(out);
        Ok(())
    }
    fn verify(&self) -> R<()> {
        fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: &[T], b: &[T]) -> R<()> {
            let i = a.iter().zip(b).take_while(|(a, b)| a == b).count();
            if i < a.len() {
                return Err(format!("{}: {:?} instead of {:?} as number {}", what, a[i], b.get(i), i));
            }
            Ok(())
        }
        for i in 0..2 {
            same("server gets", &self.got[i], &self.handed[i])?;
        }
        let s = self.seen.lock().unwrap();
        let of = |f: &dyn Fn(&Ev) -> bool| s.ev.iter().filter(|e| f(e)).cloned().collect::<Vec<_>>();
        let m: Vec<Ev> = self.sent.iter().map(|m| Ev::Msg(*m)).collect();
        same("events", &of(&|e| matches!(e, Ev::Msg(_))), &m)?;
        same("events", &of(&|e| matches!(e, Ev::Published(..))), &self.want[0])?;
        same("events", &of(&|e| matches!(e, Ev::Subscribed(..) | Ev::Unsubscribed(..))), &self.want[1])?;
        if let Some(e) = s.ev.iter().find(|e| matches!(e, Ev::Other(_))) {
            return Err(format!("events: {:?}", e));
        }
        if self.up && self.ended == 0 && self.began == 1 && !self.left && s.ev.iter().any(|e| matches!(e, Ev::Disconnected | Ev::Closed | Ev::Reconnect)) {
            return Err("events: the end of a connection that goes on".into());
        }
        if s.ev.iter().filter(|e| **e == Ev::Connected).count() > self.connects || s.ev.iter().filter(|e| **e == Ev::Disconnected).count() > self.connects {
            return Err("events: more connections than there are".into());
        }
        if self.up && !self.left && !self.dropped && self.ended == 0 && self.q.lost.is_some() {
            return Err(format!("connection: closed by the client for no reason ({:?})", self.q.lost));
        }
        if self.up && self.began == 1 && !self.left && !s.errors.is_empty() {
            return Err(format!("result: fails with {:?}", s.errors));
        }
        // identifiers are of their own while they are in use
        Ok(())
    }
    fn say(&mut self, n: usize) {
        for _ in 0..n {
            self.k += 1;
            let m = (self.k, 2, true);
            let mut b = vec![0, 1, b'm'];
            if self.ver == 5 {
                b.push(0);
            }
            b.extend([self.k; 2]);
            self.sent.push(m);
            self.q.tx.entry(0).or_default().extend(frame(0x30, &b));
        }
    }
    async fn op(&mut self, o: u8) -> R<bool> {
        if self.dropped && !matches!(o, 9..=11 | 15..=18) || !self.up && matches!(o, 0..=7 | 12..=14 | 16..=17) || self.left && matches!(o, 0..=7 | 12..=14) {
            return Ok(false);
        }
        self.k += 1;
        let k = self.k;
        match o {
            0..=3 => {
                let (q, n) = [(0, 3), (0, BIG), (1, 3), (2, 3)][o as usize];
                self.handed[0].push((q, (k, n, true)));
                self.ask(Do::Publish(k, n, q));
            }
            4 | 5 => {
                self.handed[1].push((if o == 4 { 8 } else { 10 }, (b's', k as usize, true)));
                self.ask(if o == 4 { Do::Subscribe(k) } else { Do::Unsubscribe(k) });
            }
            6 => self.say(3),
            7 => {
                if self.k > 100 {
                    return Ok(false);
                }
                self.say(130);
            }
            8 => self.ask(Do::Read),
            9 => {
                tokio::task::yield_now().await;
                self.pump()?;
            }
            10 => self.calm().await?,
            11 => self.time(500).await?,
            12 => self.ask(Do::Rebind),
            13 => {
                self.left = true;
                self.ask(Do::Disconnect);
            }
            14 => {
                self.dropped = true;
                self.ask(Do::Drop);
            }
            15 => {
                // connected anew, when it has an end
                if self.up && !self.left || self.dropped || self.began > 1 {
                    return Ok(false);
                }
                self.calm().await?;
                self.q.reading = true;
                if self.left {
                    // what was answered since then need not have been heard
                    self.quiet().await?;
                    for _ in 0..3 {
                        self.ask(Do::Read);
                        self.calm().await?;
                    }
                    let s = self.seen.lock().unwrap();
                    let c = |f: &dyn Fn(&Ev) -> bool| s.ev.iter().filter(|e| f(e)).count();
                    self.want[0].truncate(c(&|e| matches!(e, Ev::Published(..))));
                    self.want[1].truncate(c(&|e| matches!(e, Ev::Subscribed(..) | Ev::Unsubscribed(..))));
                    self.sent.truncate(c(&|e| matches!(e, Ev::Msg(_))));
                }
                self.connect();
                self.calm().await?;
            }
            16 => {
                self.quiet().await?;
                self.owed = [self.sent.len(), self.want[0].len(), self.want[1].len()];
                self.up = false;
                self.ended += 1;
                self.q.close();
                self.pump()?;
            }
            17 => self.q.reading = !self.q.reading,
            _ => {
                self.quiet().await?;
                self.lax |= self.dropped && !self.q.reading; // given up in time
                for _ in 0..12 {
                    for ms in [30, 30, 14_940] {
                        self.time(ms).await?;
                    }
                }
            }
        }
        Ok(true)
    }
    async fn patience(&mut self, n: usize) -> R<()> {
        if n < 10 {
            self.calm().await
        } else {
            self.time(500).await
        }
    }
    async fn finish(&mut self) -> R<()> {
        self.q.reading = true;
        self.settle().await?;
        // everything is carried out, whether or not the application reads events
        let mut n = 0;
        loop {
            self.patience(n).await?;
            let done = self.seen.lock().unwrap().done == self.asked;
            let all = (0..2).all(|i| self.got[i].len() == self.handed[i].len()) || !self.up || self.lax;
            let connect = self.connects == self.began;
            let told = !(self.left || self.dropped) || !self.up || self.disconnects > 0 || self.q.lost.is_some();
            if done && all && connect && told {
                break;
            }
            n += 1;
            if n > 20 {
                return Err(if !done {
                    "hangs: a command does not return".into()
                } else if !all {
                    format!("server gets: {:?} of {:?} things handed over", self.got.each_ref().map(|g| g.len()), self.handed.each_ref().map(|g| g.len()))
                } else if !connect {
                    format!("server: {} CONNECTs instead of {}", self.connects, self.began)
                } else {
                    "server gets: no word of the end".into()
                });
            }
        }
        if self.dropped {
            // the connection is not kept up
            let mut n = 0;
            while self.q.lost.is_none() && self.up {
                n += 1;
                if n > 20 {
                    return Err("connection: left open".into());
                }
                self.time(500).await?;
            }
            return Ok(());
        }
        let mut n = 0;
        loop {
            self.ask(Do::Read);
            self.patience(n).await?;
            let s = self.seen.lock().unwrap();
            let c = |f: &dyn Fn(&Ev) -> bool| s.ev.iter().filter(|e| f(e)).count();
            let owed = if self.ended > 0 && self.began == 1 { self.owed } else { [self.sent.len(), self.want[0].len(), self.want[1].len()] };
            let m = c(&|e| matches!(e, Ev::Msg(_))) >= owed[0];
            let p = c(&|e| matches!(e, Ev::Published(..))) >= owed[1] && c(&|e| matches!(e, Ev::Subscribed(..) | Ev::Unsubscribed(..))) >= owed[2];
            let k = c(&|e| *e == Ev::Connected) == self.connects && (self.ended == 0 || self.began > 1 || c(&|e| *e == Ev::Disconnected) == self.ended || self.left);
            if m && p && k || self.left && c(&|e| *e == Ev::Connected) == self.connects {
                return Ok(());
            }
            n += 1;
            if n > 20 {
                return Err(format!("events: missing ({} of {} messages, answers complete: {}, connections complete: {}, {:?})", c(&|e| matches!(e, Ev::Msg(_))), self.sent.len(), p, k, s.ev));
            }
        }
    }
}
const K: usize = 19;
const NAMES: [&str; K] = [
    "publish q0", "publish q0 300 KB", "publish q1", "publish q2", "subscribe", "unsubscribe", "server sends three messages", "server sends 130 messages", "read events", "one turn", "settled", "500 ms", "rebind", "disconnect", "client dropped", "connect", "server closes",
    "server stops/goes on reading", "three minutes",
];
fn one(ctx: &Ctx, cfg: usize, h: &[u8], l: &mut Local) -> Option<usize> {
    let mut c = vec![cfg as u8];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let mut at = 0;
    let (n, e) = match guard(|| {
        crate::tox::in_memory(async {
            let mut w = W::new([5, 4][cfg]).await?;
            for (i, o) in h.iter().enumerate() {
                at = i + 1;
                l.steps += 1;
                if !w.op(*o).await? {
                    return Ok(Some(i));
                }
            }
            l.state(&(cfg, w.got.each_ref().map(|g| g.len()), w.handed.each_ref().map(|g| g.len()), w.sent.len(), w.seen.lock().unwrap().done, w.asked, w.up, w.left, w.dropped));
            w.finish().await?;
            l.outcome(&(cfg, &w.got, &w.seen.lock().unwrap().ev));
            Ok(None)
        })
    }) {
        Ok(Ok(x)) => return x,
        Ok(Err(e)) => (at, e),
        Err(p) => (h.len(), format!("panic {}", p)),
    };
    c.truncate(1 + n);
    let names: Vec<&str> = h[..n].iter().map(|o| NAMES[*o as usize]).collect();
    let sig: String = e.chars().filter(|c| !c.is_ascii_digit()).take_while(|c| *c != '(').collect();
    ctx.fail(&sigify(&sig), format!("MQTT version {}; {:?}: {}", [5, 4][cfg], names, e), &c);
    Some(n.max(1) - 1)
}
pub fn explore(ctx: &Ctx) {
    crate::tok::prepare();
    for cfg in 0..2 {
        let d = if ctx.thorough { 5 } else { 4 } - cfg;
        histories_pruned(ctx, 1, K, d, 2, |_, h, l| one(ctx, cfg, h, l));
    }
}
pub fn replay(ctx: &Ctx, c: &[u8]) {
    crate::tok::prepare();
    let mut l = Local::new();
    one(ctx, c[0] as usize, &c[1..], &mut l);
}
