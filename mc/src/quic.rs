//! X01: the QUIC client against a real QUIC server in memory, over a network that holds, drops, repeats and reorders.
use crate::auth;
use crate::env;
use crate::fw::*;
use crate::refcodec::{frame, framing, Framing};
use bytes::{Bytes, BytesMut};
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEvent, QuicMqttEngine};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use quinn_proto::{Connection, ConnectionHandle, DatagramEvent, Dir, Endpoint, EndpointConfig, Event, StreamEvent, StreamId, VarInt};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::SocketAddr;
use std::sync::{Arc, OnceLock};
use std::time::Instant;

pub fn addr(p: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], p))
}
/// A QUIC server that keeps one connection, the newest.
pub struct Srv {
    pub ep: Endpoint,
    pub conn: Option<(ConnectionHandle, Connection)>,
    old: Vec<(ConnectionHandle, Connection)>,
    pub out: VecDeque<Vec<u8>>,
    pub gen: usize,
    pub lost: Option<String>,
    pub up: bool,
    pub ids: BTreeMap<u64, StreamId>,
    pub rx: BTreeMap<u64, Vec<u8>>,
    pub tx: BTreeMap<u64, Vec<u8>>,
    pub fin: BTreeSet<u64>,
    pub rfin: BTreeSet<u64>,
    pub rreset: BTreeMap<u64, u64>,
    pub reading: bool,
    pub peer: SocketAddr,
}
pub fn server_config(tls: rustls::ServerConfig, window: u32) -> Arc<quinn_proto::ServerConfig> {
    let q = quinn_proto::crypto::rustls::QuicServerConfig::try_from(tls).unwrap();
    let mut c = quinn_proto::ServerConfig::with_crypto(Arc::new(q));
    let mut t = quinn_proto::TransportConfig::default();
    if window > 0 {
        t.stream_receive_window(VarInt::from_u32(window));
    }
    t.max_idle_timeout(None);
    c.transport_config(Arc::new(t));
    Arc::new(c)
}
impl Srv {
    pub fn new(cfg: Arc<quinn_proto::ServerConfig>, seed: u8) -> Srv {
        Srv {
            ep: Endpoint::new(Arc::new(EndpointConfig::default()), Some(cfg), true, Some([seed; 32])),
            conn: None,
            old: vec![],
            out: VecDeque::new(),
            gen: 0,
            lost: None,
            up: false,
            ids: BTreeMap::new(),
            rx: BTreeMap::new(),
            tx: BTreeMap::new(),
            fin: BTreeSet::new(),
            rfin: BTreeSet::new(),
            rreset: BTreeMap::new(),
            reading: true,
            peer: addr(4444),
        }
    }
    pub fn recv(&mut self, d: &[u8], now: Instant) {
        let mut buf = vec![];
        let r = self.ep.handle(now, self.peer, None, None, BytesMut::from(d), &mut buf);
        match r {
            Some(DatagramEvent::NewConnection(i)) => {
                let mut b = vec![];
                match self.ep.accept(i, now, &mut b, None) {
                    Ok((ch, c)) => {
                        self.old.extend(self.conn.take());
                        self.conn = Some((ch, c));
                        self.gen += 1;
                        self.lost = None;
                        self.up = false;
                        self.ids.clear();
                        self.rx.clear();
                        self.tx.clear();
                        self.fin.clear();
                        self.rfin.clear();
                        self.rreset.clear();
                    }
                    Err(_) => {
                        if !b.is_empty() {
                            self.out.push_back(b);
                        }
                    }
                }
            }
            Some(DatagramEvent::ConnectionEvent(ch, e)) => {
                if let Some((_, c)) = self.conn.iter_mut().chain(&mut self.old).find(|(h, _)| *h == ch) {
                    c.handle_event(e);
                }
            }
            Some(DatagramEvent::Response(t)) => self.out.push_back(buf[..t.size].to_vec()),
            None => {}
        }
    }
    pub fn close(&mut self) {
        if let Some((_, c)) = &mut self.conn {
            c.close(Instant::now(), VarInt::from_u32(0), Bytes::new());
        }
    }
    pub fn open(&mut self) -> Option<u64> {
        let id = self.conn.as_mut()?.1.streams().open(Dir::Bi)?;
        self.ids.insert(id.into(), id);
        Some(id.into())
    }
    pub fn poll(&mut self, now: Instant) {
        let Some((ch, c)) = &mut self.conn else { return };
        c.handle_timeout(now);
        loop {
            let mut any = false;
            while let Some(e) = c.poll() {
                any = true;
                match e {
                    Event::Connected => self.up = true,
                    Event::ConnectionLost { reason } => self.lost = Some(reason.to_string()),
                    Event::Stream(StreamEvent::Stopped { .. }) => {}
                    _ => {}
                }
            }
            while let Some(id) = c.streams().accept(Dir::Bi) {
                self.ids.insert(id.into(), id);
            }
            while let Some(e) = c.poll_endpoint_events() {
                any = true;
                if let Some(e) = self.ep.handle_event(*ch, e) {
                    c.handle_event(e);
                }
            }
            if !any {
                break;
            }
        }
        for (k, id) in &self.ids {
            if self.reading && !self.rfin.contains(k) && !self.rreset.contains_key(k) {
                let mut s = c.recv_stream(*id);
                let r = s.read(true);
                if let Ok(mut ch) = r {
                    loop {
                        match ch.next(1 << 20) {
                            Ok(Some(b)) => self.rx.entry(*k).or_default().extend(&b.bytes[..]),
                            Ok(None) => {
                                self.rfin.insert(*k);
                                break;
                            }
                            Err(quinn_proto::ReadError::Reset(e)) => {
                                self.rreset.insert(*k, e.into());
                                break;
                            }
                            Err(_) => break,
                        }
                    }
                    let _ = ch.finalize();
                }
            }
            let t = self.tx.entry(*k).or_default();
            while !t.is_empty() {
                match c.send_stream(*id).write(t) {
                    Ok(n) if n > 0 => {
                        t.drain(..n);
                    }
                    _ => break,
                }
            }
            if t.is_empty() && self.fin.remove(k) {
                let _ = c.send_stream(*id).finish();
            }
        }
        let mut b = vec![];
        while let Some(t) = c.poll_transmit(now, 1, &mut b) {
            self.out.push_back(b[..t.size].to_vec());
            b.clear();
        }
    }
}

/// The server for explorers in other processes.  A request is an operation, the time in ns and bytes; the answer is the
/// datagrams to be delivered, what has arrived on each stream since, and whether the connection is up and was lost.
pub fn serve_stdin() {
    use std::io::{Read, Write};
    let base = Instant::now();
    let cfg = &tls().1[0];
    let mut s = Srv::new(cfg.clone(), 7);
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut h = [0u8; 13];
    while i.read_exact(&mut h).is_ok() {
        let now = base + std::time::Duration::from_nanos(u64::from_le_bytes(h[1..9].try_into().unwrap()));
        let mut d = vec![0; u32::from_le_bytes(h[9..13].try_into().unwrap()) as usize];
        i.read_exact(&mut d).unwrap();
        match h[0] {
            b'R' => s = Srv::new(cfg.clone(), 7),
            b'D' => s.recv(&d, now),
            b'S' => s.tx.entry(u64::from_le_bytes(d[..8].try_into().unwrap())).or_default().extend(&d[8..]),
            b'C' => {
                if let Some((_, c)) = &mut s.conn {
                    c.close(now, VarInt::from_u32(0), Bytes::new());
                }
            }
            _ => {}
        }
        s.poll(now);
        let mut r = vec![];
        r.extend((s.out.len() as u32).to_le_bytes());
        for d in s.out.drain(..) {
            r.extend((d.len() as u32).to_le_bytes());
            r.extend(d);
        }
        r.push(s.up as u8);
        r.push(s.lost.is_some() as u8);
        s.rx.retain(|_, b| !b.is_empty());
        r.extend((s.rx.len() as u32).to_le_bytes());
        for (k, b) in std::mem::take(&mut s.rx) {
            r.extend(k.to_le_bytes());
            r.extend((b.len() as u32).to_le_bytes());
            r.extend(b);
        }
        o.write_all(&(r.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&r).unwrap();
        o.flush().unwrap();
    }
}

/// The configurations of the client and of the server, with room for `window` unread bytes.
fn tls() -> &'static (rustls::ClientConfig, [Arc<quinn_proto::ServerConfig>; 2]) {
    static C: OnceLock<(rustls::ClientConfig, [Arc<quinn_proto::ServerConfig>; 2])> = OnceLock::new();
    C.get_or_init(|| {
        let mut c = crate::tls::client_cfg(crate::tls::CA, false);
        c.resumption = rustls::client::Resumption::disabled();
        c.alpn_protocols = vec![b"mqtt".to_vec()];
        let s = || {
            let mut s = auth::server(0, false, false, &[b"mqtt"]);
            s.max_early_data_size = u32::MAX;
            s
        };
        (c, [server_config(s(), 0), server_config(s(), 60)])
    })
}

const NAMES: [&str; K] = [
    "publish q0",
    "publish q1",
    "publish q2 on an own stream",
    "subscribe",
    "20 KB q0 on an own stream",
    "ping",
    "message q1 on the control stream",
    "message q2 on the last client stream",
    "message q1 on a server stream",
    "half a message on the last client stream",
    "30 messages on the control stream",
    "30 messages on the last client stream",
    "server mute/answers",
    "network holds/delivers",
    "network delivers twice and backwards",
    "network drops what it holds",
    "tick",
    "6 s",
    "20 s",
    "finish the own stream",
    "server finishes the last client stream",
    "server resets the last client stream",
    "server stops the last client stream",
    "server finishes the control stream",
    "server closes",
    "disconnect and close",
    "close",
    "reconnect",
    "connect again",
    "server reads/does not",
    "reset the own stream",
    "server sends DISCONNECT",
    "not MQTT on the last client stream",
    "unsubscribe",
    "subscribe on an own stream",
    "other local address",
    "drop silently",
];
pub const K: usize = 37;

struct Op {
    pid: u16,
    kind: u8, // 3 publish, 8 subscribe
    q: u8,
    done: usize,     // completion events
    answered: usize, // final answers the server has sent
}
#[derive(Default)]
struct Strm {
    api: Vec<(u8, u16, Vec<u8>)>, // first byte, id, rest
    resp: Vec<(u8, u16)>,
    seen_api: usize,
    seen_resp: usize,
    pos: usize,
    lossy: bool,
    want: Vec<String>, // messages of the server
    got: Vec<String>,
    half: Vec<u8>,
    held_resp: Option<(u8, u16)>,
    no_resp: bool, // the client has finished it
    dead: bool, // the server may not send any more
}

struct W {
    c: QuicMqttEngine,
    s: Srv,
    v5: bool,
    held: bool,
    up_q: VecDeque<Vec<u8>>,
    down_q: VecDeque<Vec<u8>>,
    mute: bool,
    ans: Vec<(u64, Vec<u8>, Option<u16>)>,
    st: BTreeMap<u64, Strm>,
    ops: Vec<Op>,
    up: bool,       // MQTT connected, as far as the client can know
    quic: bool,     // a connection that nobody has ended
    connack: bool,  // the server has accepted
    control: Option<u64>,
    pubs: Option<u64>,
    subs: Option<u64>,
    own: Option<u64>,
    gen: usize,
    base: usize, // connections the server had before this one
    n: usize,
    spid: u16,
    pings: usize,
    pongs: usize,
    discs: usize,
    must_disc: bool,
    closed_ev: BTreeMap<u64, usize>,
    want_closed: BTreeMap<u64, usize>,
    connected_ev: usize,
    dropped: bool,
    present: bool,
    resumed: bool,
    bye: bool, // DISCONNECT has been queued
    ended_late: bool,
    timed: bool,
    ticks: usize,
    small: bool,
    errors: usize, // reports that are due
    gave_up: bool, // no answer to a keep-alive
}

fn p16(v: u16) -> [u8; 2] {
    v.to_be_bytes()
}

impl W {
    fn new(v5: bool, small: bool, present: bool) -> W {
        env::vclock_off();
        env::vclock_on();
        env::rng_seed(0x901c);
        let o = MqttClientOptions::builder().client_id("q").keep_alive(15).mqtt_version(if v5 { 5 } else { 4 }).clean_start(false).max_event_count(20).retransmission_timeout_ms(7000).build();
        let mut c = QuicMqttEngine::new(o).unwrap();
        c.connect(addr(4433), "localhost", tls().0.clone(), Instant::now()).unwrap();
        W {
            c,
            s: Srv::new(tls().1[small as usize].clone(), 7),
            v5,
            held: false,
            up_q: VecDeque::new(),
            down_q: VecDeque::new(),
            mute: false,
            ans: vec![],
            st: BTreeMap::new(),
            ops: vec![],
            up: false,
            quic: true,
            connack: false,
            control: None,
            pubs: None,
            subs: None,
            own: None,
            gen: 0,
            base: 0,
            n: 0,
            spid: 100,
            pings: 0,
            pongs: 0,
            discs: 0,
            must_disc: false,
            closed_ev: BTreeMap::new(),
            want_closed: BTreeMap::new(),
            connected_ev: 0,
            dropped: false,
            present,
            resumed: false,
            bye: false,
            ended_late: false,
            timed: false,
            ticks: 0,
            small,
            errors: 0,
            gave_up: false,
        }
    }
    fn strm(&mut self, id: u64) -> &mut Strm {
        self.st.entry(id).or_default()
    }
    /// What is left of a half-sent message.
    fn rest(&mut self, id: u64) -> Vec<u8> {
        let s = self.strm(id);
        s.resp.extend(s.held_resp.take());
        std::mem::take(&mut s.half)
    }
    fn say(&mut self, id: u64, b: &[u8]) {
        self.s.tx.entry(id).or_default().extend(b);
    }
    fn props(&self) -> Vec<u8> {
        if self.v5 {
            vec![0]
        } else {
            vec![]
        }
    }
    /// A message of the server.
    fn message(&mut self, id: u64, q: u8) -> Vec<u8> {
        self.n += 1;
        let text = format!("s{}n{}", id, self.n);
        let mut b = vec![0, 1, b't'];
        if q > 0 {
            self.spid += 1;
            b.extend(p16(self.spid));
        }
        b.extend(self.props());
        b.extend(text.as_bytes());
        let pid = self.spid;
        let s = self.strm(id);
        s.want.push(text);
        if q > 0 {
            s.resp.push((if q == 1 { 0x40 } else { 0x50 }, pid));
        }
        frame(0x30 | q << 1, &b)
    }
    fn answer(&mut self, id: u64, b: Vec<u8>, done: Option<u16>) {
        if self.mute {
            self.ans.push((id, b, done));
        } else {
            self.answer_now(id, b, done);
        }
    }
    fn answer_now(&mut self, id: u64, b: Vec<u8>, done: Option<u16>) {
        if !self.strm(id).half.is_empty() {
            // never within a message
            let h = self.rest(id);
            self.say(id, &h);
        }
        if self.strm(id).dead {
            return;
        }
        if let Some(p) = done {
            if let Some(o) = self.ops.iter_mut().rev().find(|o| o.pid == p) {
                o.answered += 1;
            }
        }
        match b[0] & 0xf0 {
            0x50 => self.strm(id).resp.push((0x60, u16::from_be_bytes([b[2], b[3]]))),
            0x60 => self.strm(id).resp.push((0x70, u16::from_be_bytes([b[2], b[3]]))),
            0x20 if b[3] == 0 => self.connack = true,
            _ => {}
        }
        self.say(id, &b);
    }
    /// A whole packet of the client on stream `id`.
    fn packet(&mut self, id: u64, b: &[u8], hdr: usize) -> Result<(), String> {
        let t = b[0] & 0xf0;
        let body = &b[hdr..];
        let id16 = |o: usize| u16::from_be_bytes([body[o], body[o + 1]]);
        if self.control.is_none() {
            if t != 0x10 {
                return Err(format!("the first packet is {:02x}", b[0]));
            }
            self.control = Some(id);
            let k = self.strm(id);
            k.api.insert(0, (0x10, 0, vec![]));
        }
        match t {
            0x40..=0x70 => {
                let pid = id16(0);
                // a resumed PUBREL answers nothing
                let resumed = self.resumed && t == 0x60 && Some(id) == self.control;
                let v3dup = !self.v5 && self.timed && t == 0x60;
                let s = self.strm(id);
                if s.resp.get(s.seen_resp) == Some(&(t, pid)) {
                    s.seen_resp += 1;
                } else if !resumed && !(v3dup && s.resp[..s.seen_resp].contains(&(t, pid))) {
                    return Err(format!("{:02x} for {} on stream {}, where {:x?} is due", b[0], pid, id, s.resp.get(s.seen_resp)));
                }
                match t {
                    0x50 => self.answer(id, vec![0x62, 2, body[0], body[1]], None),
                    0x60 => self.answer(id, vec![0x70, 2, body[0], body[1]], Some(pid)),
                    _ => {}
                }
                return Ok(());
            }
            _ => {}
        }
        let q = b[0] >> 1 & 3;
        let (first, pid, rest) = match t {
            0x10 => (0x10, 0, vec![]),
            0x30 => {
                let tl = id16(0) as usize;
                let pid = if q > 0 { id16(2 + tl) } else { 0 };
                (b[0], pid, body[2 + tl + if q > 0 { 2 } else { 0 }..].to_vec())
            }
            0x80 | 0xa0 => (b[0], id16(0), body[2..].to_vec()),
            _ => (b[0], 0, vec![]),
        };
        let (control, resumed, v5, timed) = (self.control, self.resumed, self.v5, self.timed);
        let outstanding = self.ops.iter().any(|o| o.pid == pid && o.done == 0);
        let s = self.strm(id);
        let ok = match s.api.get(s.seen_api) {
            Some(w) if *w == (first, pid, rest.clone()) => {
                s.seen_api += 1;
                true
            }
            // sent again on the connection that resumes the session
            _ if resumed && Some(id) == control && (first & 0xf8 == 0x38 || t == 0x80 || t == 0xa0) && outstanding => true,
            // sent again after a timeout, where it was first sent
            _ if !v5 && timed && outstanding && s.api[..s.seen_api].iter().any(|w| w.1 == pid && w.2 == rest && (w.0 | if t == 0x30 { 8 } else { 0 }) == first) => true,
            _ => false,
        };
        if !ok && t == 0xc0 && Some(id) == control && (timed || self.c.engine().is_connected()) {
            // keep-alive
            self.pings += 1;
        } else if !ok {
            let s = self.strm(id);
            return Err(format!("on stream {}: {:02x} id {} ({} bytes), expected {:x?}", id, first, pid, rest.len(), s.api.get(s.seen_api).map(|w| (w.0, w.1, w.2.len()))));
        }
        match t {
            0x10 => {
                let p = self.present as u8;
                let mut b = vec![0x20, 2, p, 0];
                if self.v5 {
                    b = vec![0x20, 3, p, 0, 0];
                }
                self.answer(id, b, None);
            }
            0x30 if q == 1 => self.answer(id, vec![0x40, 2, (pid >> 8) as u8, pid as u8], Some(pid)),
            0x30 if q == 2 => self.answer(id, vec![0x50, 2, (pid >> 8) as u8, pid as u8], None),
            0x80 => {
                let b = if self.v5 { vec![0x90, 4, (pid >> 8) as u8, pid as u8, 0, 1] } else { vec![0x90, 3, (pid >> 8) as u8, pid as u8, 1] };
                self.answer(id, b, Some(pid));
            }
            0xa0 => {
                let b = if self.v5 { vec![0xb0, 4, (pid >> 8) as u8, pid as u8, 0, 0] } else { vec![0xb0, 2, (pid >> 8) as u8, pid as u8] };
                self.answer(id, b, Some(pid));
            }
            0xc0 => self.answer(id, vec![0xd0, 0], None),
            _ => {}
        }
        Ok(())
    }
    fn event(&mut self, e: &MqttEvent, tag: &mut Option<Option<u64>>) -> Result<(), String> {
        let before = tag.take();
        match e {
            MqttEvent::Connected(r) => {
                if !self.connack || r.reason_code != 0 {
                    return Err("Connected, not accepted".into());
                }
                self.connected_ev += 1;
                self.up = self.quic;
                self.resumed = self.gen > 1;
                if self.connected_ev > 1 {
                    return Err("connected twice".into());
                }
                if !self.present {
                    self.ops.retain(|o| o.done > 0);
                }
            }
            MqttEvent::PublishReceived { stream, .. } => *tag = Some(*stream),
            MqttEvent::MessageReceived(m) => {
                let t = String::from_utf8_lossy(&m.payload).to_string();
                let id: u64 = t[1..].split('n').next().and_then(|x| x.parse().ok()).ok_or("a message nobody sent")?;
                let want = if Some(id) == self.control { None } else { Some(id) };
                if before != Some(want) {
                    return Err(format!("message of stream {} announced as {:?}", id, before));
                }
                let s = self.strm(id);
                s.got.push(t);
                if s.got.len() > s.want.len() || s.got[..] != s.want[..s.got.len()] {
                    return Err(format!("message {:?} of stream {}, expected {:?}", s.got.last(), id, s.want.get(s.got.len() - 1)));
                }
            }
            MqttEvent::Published(r) => {
                let pid = r.packet_id;
                self.done(pid.ok_or("Published without id")?)?
            }
            MqttEvent::Subscribed(r) => self.done(r.packet_id)?,
            MqttEvent::Unsubscribed(r) => self.done(r.packet_id)?,
            MqttEvent::PingResponse(_) => {
                self.pongs += 1;
                if self.pongs > self.pings {
                    return Err("a PINGRESP too many".into());
                }
            }
            MqttEvent::PubRelReceived { .. } => {}
            MqttEvent::Disconnected(_) => {
                self.discs += 1;
                self.up = false;
                self.lossy_all();
                if self.discs > 1 {
                    return Err("two Disconnected events for one connection".into());
                }
            }
            MqttEvent::TransportClosed { .. } => {
                self.quic = false;
                self.up = false;
                self.lossy_all();
                if self.s.lost.is_none() && !self.ended_late {
                    return Err(format!("{:?}, and nobody has closed", e));
                }
            }
            MqttEvent::StreamClosed { stream_id, by_peer, .. } => {
                *self.closed_ev.entry(stream_id * 2 + *by_peer as u64).or_default() += 1;
            }
            MqttEvent::StreamReset { stream_id, .. } | MqttEvent::StreamStopped { stream_id, .. } => {
                *self.closed_ev.entry(stream_id * 2 + 1).or_default() += 1;
            }
            MqttEvent::ReconnectNeeded if self.pings > self.pongs || (self.timed && (self.held || !self.s.reading)) => {
                self.gave_up = true;
                self.up = false;
                self.must_disc = false;
                self.lossy_all();
            }
            MqttEvent::Error(_) if self.errors > 0 => self.errors -= 1,
            MqttEvent::ReconnectScheduled { .. } => {}
            _ => return Err(format!("{:?}", e)),
        }
        Ok(())
    }
    fn done(&mut self, pid: u16) -> Result<(), String> {
        let o = self.ops.iter_mut().rev().find(|o| o.pid == pid).ok_or(format!("completion of {}, which nobody started", pid))?;
        o.done += 1;
        if o.done > 1 || o.answered == 0 {
            return Err(format!("completion number {} of {}, {} answers", o.done, pid, o.answered));
        }
        Ok(())
    }
    fn lossy_all(&mut self) {
        for s in self.st.values_mut() {
            s.lossy = true;
        }
    }
    fn ctick(&mut self) -> Result<(), String> {
        self.ticks += 1;
        let ev = self.c.handle_tick(Instant::now());
        let mut tag = None;
        for e in &ev {
            self.event(e, &mut tag)?;
        }
        let ev = self.c.take_events();
        for e in &ev {
            self.event(e, &mut tag)?;
        }
        if self.c.is_connected() != self.up {
            return Err(format!("is_connected is {}", !self.up));
        }
        for (a, d) in self.c.take_outgoing_datagrams() {
            if a != addr(4433) {
                return Err("a datagram to someone else".into());
            }
            self.up_q.push_back(d);
        }
        Ok(())
    }
    fn stick(&mut self) -> Result<(), String> {
        self.s.poll(Instant::now());
        self.down_q.append(&mut self.s.out);
        if self.s.gen != self.gen && self.s.gen > self.base {
            self.gen = self.s.gen;
        }
        if self.s.gen <= self.base {
            return Ok(());
        }
        let ids: Vec<u64> = self.s.rx.keys().copied().collect();
        for id in ids {
            loop {
                let pos = self.strm(id).pos;
                let b = self.s.rx[&id][pos..].to_vec();
                match framing(&b) {
                    Framing::Incomplete => break,
                    Framing::Bad(e) => return Err(format!("stream {}: {}", id, e)),
                    Framing::Frame { hdr, total } => {
                        if b.len() < total {
                            break;
                        }
                        self.strm(id).pos += total;
                        self.packet(id, &b[..total], hdr)?;
                    }
                }
            }
        }
        Ok(())
    }
    fn move_all(&mut self) -> bool {
        let mut any = false;
        let now = Instant::now();
        while let Some(d) = self.up_q.pop_front() {
            any = true;
            self.s.recv(&d, now);
        }
        while let Some(d) = self.down_q.pop_front() {
            any = true;
            self.c.handle_datagram(d, addr(4433), now);
        }
        any
    }
    fn settle(&mut self) -> Result<(), String> {
        if self.held {
            self.ctick()?;
            return self.stick();
        }
        let long = if self.dropped { 60 } else { 4 };
        self.timed |= self.dropped;
        self.dropped = false;
        let mut quiet = 0;
        for _ in 0..400 {
            self.ctick()?;
            let a = self.move_all();
            self.stick()?;
            let b = self.move_all();
            quiet = if a || b { 0 } else { quiet + 1 };
            if quiet > long {
                return self.check();
            }
            env::vadvance_ms(if long > 4 { 100 } else { 15 });
        }
        Err("the two ends never come to rest".into())
    }
    /// Nothing is under way.
    fn check(&mut self) -> Result<(), String> {
        if self.s.gen <= self.base && self.quic {
            return Err("no QUIC connection".into());
        }
        if self.quic && self.control.is_none() && self.s.reading {
            return Err("no CONNECT".into());
        }
        let muted = self.mute;
        if self.quic && !self.up && self.connack && self.discs == 0 && !self.bye && self.s.lost.is_none() && !self.gave_up {
            return Err("accepted, but not connected".into());
        }
        if self.must_disc && self.discs == 0 {
            return Err("the end of the connection is not reported".into());
        }
        if self.s.reading {
            for (id, s) in &self.st {
                if !s.lossy && (s.seen_api < s.api.len() || (self.up && !s.no_resp && s.seen_resp < s.resp.len())) {
                    return Err(format!("on stream {} {} of {} packets and {} of {} answers have arrived", id, s.seen_api, s.api.len(), s.seen_resp, s.resp.len()));
                }
                if !s.lossy && self.s.rx.get(id).is_some_and(|r| r.len() > s.pos) {
                    return Err(format!("part of a packet on stream {}", id));
                }
            }
        }
        for (id, s) in &self.st {
            if !s.lossy && self.up && s.got.len() < s.want.len() - (!s.half.is_empty()) as usize {
                return Err(format!("{} of {} messages of stream {} have been told", s.got.len(), s.want.len(), id));
            }
        }
        if self.up && self.s.reading {
            for o in &self.ops {
                if o.done < o.answered.min(1) && !self.st.values().any(|s| s.lossy) {
                    return Err(format!("the answer for {} is not reported", o.pid));
                }
            }
            if !muted && self.pongs < self.pings {
                return Err("a PINGRESP is not reported".into());
            }
            if !muted && self.present && self.st.values().all(|s| !s.lossy && !s.dead && !s.no_resp) && self.ops.iter().any(|o| o.done == 0) {
                return Err("an operation is never completed".into());
            }
            if self.errors > 0 && self.st.values().all(|s| !s.lossy || s.dead) {
                return Err("what is not MQTT is not reported".into());
            }
            for (k, n) in &self.want_closed {
                if self.closed_ev.get(k) != Some(n) {
                    return Err(format!("the end of stream {} ({}) is reported {:?} times", k / 2, k % 2, self.closed_ev.get(k)));
                }
            }
        }
        Ok(())
    }
    fn api(&mut self, id: u64, first: u8, pid: u16, rest: Vec<u8>) {
        if !self.st.contains_key(&id) {
            self.st.insert(id, Strm::default());
        }
        self.strm(id).api.push((first, pid, rest));
    }
    fn fresh(&self, pid: u16) -> Result<(), String> {
        if pid == 0 || self.ops.iter().any(|o| o.pid == pid && o.done == 0) {
            return Err(format!("id {} is in use", pid));
        }
        Ok(())
    }
    fn publish(&mut self, on: Option<u64>, q: u8, len: usize) -> Result<(), String> {
        self.n += 1;
        let mut p = format!("c{}", self.n).into_bytes();
        p.resize(len.max(p.len()), b'.');
        let cmd = PublishCommand::simple("a/b", p.clone(), q, false);
        let before = self.c.data_stream_count();
        let r = match on {
            None => self.c.publish(cmd),
            Some(s) => self.c.publish_on(s, cmd),
        };
        if r.is_ok() != self.up {
            return Err(format!("publish returns {:?}", r));
        }
        let Ok(pid) = r else { return Ok(()) };
        let id = match on {
            Some(s) => s,
            None => {
                self.pubs = self.pubs.filter(|p| !self.closed_ev.contains_key(&(p * 2 + 1)));
                let fresh = self.pubs.is_none();
                if fresh != (self.c.data_stream_count() > before) {
                    return Err("publishing opens another stream".into());
                }
                if fresh {
                    self.pubs = self.newest();
                }
                self.pubs.unwrap()
            }
        };
        if pid.is_some() != (q > 0) {
            return Err(format!("publish returns {:?}", pid));
        }
        if let Some(pid) = pid {
            self.fresh(pid)?;
            self.ops.push(Op { pid, kind: 3, q, done: 0, answered: 0 });
        }
        let mut rest = self.props();
        rest.extend(p);
        self.api(id, 0x30 | q << 1, pid.unwrap_or(0), rest);
        Ok(())
    }
    /// The stream the client opened last: its ids are 0, 4, 8...
    fn newest(&self) -> Option<u64> {
        let mut id = self.c.control_stream_id()?;
        while self.st.contains_key(&id) || id == self.c.control_stream_id()? {
            id += 4;
        }
        Some(id)
    }
    fn own(&mut self) -> Result<Option<u64>, String> {
        if self.own.is_none() {
            let r = self.c.open_data_stream();
            if r.is_ok() != self.up {
                return Err(format!("open_data_stream returns {:?}", r));
            }
            if let Ok(id) = r {
                if self.st.contains_key(&id) || Some(id) == self.control {
                    return Err("a stream that is there already".into());
                }
                self.st.insert(id, Strm::default());
                self.own = Some(id);
            }
        }
        Ok(self.own)
    }
    /// The last client stream the server knows and may still send on.
    fn last(&self) -> Option<u64> {
        self.s.ids.keys().copied().filter(|i| i % 4 == 0 && Some(*i) != self.control && self.st.get(i).is_some_and(|s| !s.dead)).max()
    }
    fn end(&mut self) {
        self.up = false;
        self.quic = false;
        self.lossy_all();
        self.want_closed.clear();
        self.must_disc = false;
        self.ended_late = true;
    }
    fn renew(&mut self) {
        // what was under way belongs to the earlier connection
        self.up = false;
        self.quic = true;
        self.connack = false;
        self.control = None;
        self.pubs = None;
        self.subs = None;
        self.own = None;
        self.st.clear();
        self.ans.clear();
        self.pings = 0;
        self.pongs = 0;
        self.discs = 0;
        self.must_disc = false;
        self.closed_ev.clear();
        self.want_closed.clear();
        self.connected_ev = 0;
        self.resumed = false;
        self.bye = false;
        self.errors = 0;
        self.gave_up = false;
        self.ended_late = false;
        self.timed = false;
        self.base = self.s.gen;
        for o in &mut self.ops {
            o.answered = 0;
        }
        self.s.tx.clear();
        self.up_q.clear();
    }
    fn op(&mut self, o: u8) -> Result<bool, String> {
        match o {
            0 => self.publish(None, 0, 10)?,
            1 => self.publish(None, 1, 10)?,
            2 => {
                let Some(id) = self.own()? else { return Ok(false) };
                self.publish(Some(id), 2, 10)?
            }
            3 | 33 | 34 => {
                self.n += 1;
                let f = format!("f{}", self.n);
                let on = if o == 34 {
                    let Some(id) = self.own()? else { return Ok(false) };
                    Some(id)
                } else {
                    None
                };
                let r = match (o, on) {
                    (33, _) => self.c.unsubscribe(UnsubscribeCommand::from_topics(vec![f.clone()])),
                    (_, Some(id)) => self.c.subscribe_on(id, SubscribeCommand::single(f.clone(), 1)),
                    _ => self.c.subscribe(SubscribeCommand::single(f.clone(), 1)),
                };
                if r.is_ok() != self.up {
                    return Err(format!("{} returns {:?}", NAMES[o as usize], r));
                }
                if let Ok(pid) = r {
                    let id = match on {
                        Some(id) => id,
                        None => {
                            self.subs = self.subs.filter(|p| !self.closed_ev.contains_key(&(p * 2 + 1)));
                            if self.subs.is_none() {
                                self.subs = self.newest();
                            }
                            self.subs.unwrap()
                        }
                    };
                    self.fresh(pid)?;
                    self.ops.push(Op { pid, kind: 8, q: 1, done: 0, answered: 0 });
                    let mut rest = self.props();
                    rest.extend(p16(f.len() as u16));
                    rest.extend(f.as_bytes());
                    if o != 33 {
                        rest.push(1);
                    }
                    self.api(id, if o == 33 { 0xa2 } else { 0x82 }, pid, rest);
                }
            }
            4 => {
                let Some(id) = self.own()? else { return Ok(false) };
                self.publish(Some(id), 0, if self.small { 700 } else { 20_000 })?
            }
            5 => {
                let r = self.c.ping();
                if r.is_ok() != self.up {
                    return Err(format!("ping returns {:?}", r));
                }
                if r.is_ok() {
                    self.pings += 1;
                    let id = self.control.unwrap();
                    self.api(id, 0xc0, 0, vec![]);
                }
            }
            6 | 10 => {
                if !self.connack || !self.live() {
                    return Ok(false);
                }
                let id = self.control.unwrap();
                if self.strm(id).dead {
                    return Ok(false);
                }
                if o == 6 {
                    let m = self.message(id, 1);
                    self.say(id, &m);
                } else {
                    for _ in 0..30 {
                        let m = self.message(id, 0);
                        self.say(id, &m);
                    }
                }
            }
            7 | 9 | 11 => {
                let (Some(id), true) = (self.last(), self.live()) else { return Ok(false) };
                let h = self.rest(id);
                self.say(id, &h);
                match o {
                    7 => {
                        let m = self.message(id, 2);
                        self.say(id, &m);
                    }
                    9 if !h.is_empty() => {}
                    9 => {
                        let m = self.message(id, 1);
                        let (a, b) = m.split_at(5);
                        // the answer is due when the message is complete, and nothing else is sent before
                    self.say(id, a);
                    let s = self.strm(id);
                    s.half = b.to_vec();
                    s.held_resp = s.resp.pop();
                    }
                    _ => {
                        for _ in 0..30 {
                            let m = self.message(id, 0);
                            self.say(id, &m);
                        }
                    }
                }
            }
            8 => {
                if !self.live() || !self.connack {
                    return Ok(false);
                }
                let Some(id) = self.s.open() else { return Ok(false) };
                let m = self.message(id, 1);
                self.say(id, &m);
            }
            12 => {
                self.mute = !self.mute;
                if !self.mute {
                    for (id, b, d) in std::mem::take(&mut self.ans) {
                        self.answer_now(id, b, d);
                    }
                }
            }
            13 => self.held = !self.held,
            14 => {
                if !self.held {
                    return Ok(false);
                }
                self.held = false;
                for q in [&mut self.up_q, &mut self.down_q] {
                    let v: Vec<Vec<u8>> = q.drain(..).rev().collect();
                    for d in v {
                        q.push_back(d.clone());
                        q.push_back(d);
                    }
                }
            }
            15 => {
                if !self.held || (self.up_q.is_empty() && self.down_q.is_empty()) {
                    return Ok(false);
                }
                self.up_q.clear();
                self.down_q.clear();
                self.dropped = true;
                if self.s.lost.is_some() {
                    self.must_disc = false;
                }
            }
            16 => {
                let now = Instant::now();
                self.c.handle_tick(now).iter().try_for_each(|e| self.event(e, &mut None))?;
            }
            17 => {
                self.timed = true;
                self.dropped = true;
                env::vadvance_ms(6_000);
            }
            18 => {
                self.timed = true;
                self.dropped = true;
                env::vadvance_ms(20_000);
            }
            19 | 30 => {
                let Some(id) = self.own else { return Ok(false) };
                let r = if o == 19 { self.c.finish_stream(id) } else { self.c.reset_stream(id, 5) };
                if r.is_err() && self.quic {
                    return Err(format!("finish_stream returns {:?}", r));
                }
                if r.is_ok() && self.up {
                    if self.c.publish_on(id, PublishCommand::simple("x", vec![], 1, false)).is_ok() {
                        return Err("publishing on a finished stream is accepted".into());
                    }
                }
                self.strm(id).no_resp = true;
                if o == 30 {
                    self.strm(id).lossy = true;
                } else if self.s.ids.contains_key(&id) && !self.strm(id).lossy {
                    self.want_closed.insert(id * 2, 1);
                }
                self.own = None;
            }
            20 | 21 | 22 => {
                let (Some(id), true) = (self.last(), self.live()) else { return Ok(false) };
                let h = self.rest(id);
                self.say(id, &h);
                let sid = self.s.ids[&id];
                let c = &mut self.s.conn.as_mut().unwrap().1;
                match o {
                    20 => {
                        self.s.fin.insert(id);
                    }
                    21 => {
                        let _ = c.send_stream(sid).reset(VarInt::from_u32(3));
                        self.s.tx.remove(&id);
                    }
                    _ => {
                        let _ = c.recv_stream(sid).stop(VarInt::from_u32(4));
                    }
                }
                self.strm(id).dead = true;
                if o != 20 {
                    self.strm(id).lossy = true;
                    for k in [&mut self.own, &mut self.pubs, &mut self.subs] {
                        if *k == Some(id) {
                            *k = None;
                        }
                    }
                    // until the client knows, its packets for this stream go nowhere
                    if self.held {
                        return Ok(false);
                    }
                }
                self.ans.retain(|a| a.0 != id);
                if o != 22 || !self.strm(id).no_resp {
                    self.want_closed.insert(id * 2 + 1, 1);
                }
                // answers of the server on this stream are impossible
            }
            23 => {
                let (Some(id), true) = (self.control, self.live()) else { return Ok(false) };
                if self.strm(id).dead {
                    return Ok(false);
                }
                self.strm(id).dead = true;
                self.s.fin.insert(id);
                self.must_disc = true;
                self.ended_late = true;
                self.lossy_all();
                self.connack = true;
            }
            24 => {
                if !self.live() {
                    return Ok(false);
                }
                let now = Instant::now();
                self.s.conn.as_mut().unwrap().1.close(now, VarInt::from_u32(9), Bytes::from_static(b"x"));
                self.s.lost = Some("closed".into());
                self.must_disc = true;
                self.lossy_all();
                self.want_closed.clear();
            }
            25 => {
                if !self.quic {
                    return Ok(false);
                }
                let was = self.up;
                let r = self.c.disconnect_and_close(7, b"bye");
                if r.is_err() {
                    return Err(format!("disconnect_and_close returns {:?}", r));
                }
                if was {
                    let id = self.control.unwrap();
                    let full = self.st.get(&id).is_some_and(|s| !s.lossy);
                    self.end();
                    self.api(id, 0xe0, 0, vec![]);
                    // it must arrive, with everything before it on its stream
                    if full && self.s.reading && !self.held && self.up_q.is_empty() {
                        self.strm(id).lossy = false;
                    }
                } else {
                    self.end();
                }
                self.bye = true;
            }
            26 => {
                if !self.quic {
                    return Ok(false);
                }
                self.c.close(3, b"bye").map_err(|e| format!("close returns {:?}", e))?;
                self.end();
            }
            27 => {
                self.renew();
                self.c.reconnect(Instant::now()).map_err(|e| format!("reconnect returns {:?}", e))?;
            }
            28 => {
                self.renew();
                self.c.connect(addr(4433), "localhost", tls().0.clone(), Instant::now()).map_err(|e| format!("connect returns {:?}", e))?;
            }
            31 => {
                let (Some(id), true, true) = (self.control, self.live() && self.connack, self.v5) else { return Ok(false) };
                if self.strm(id).dead {
                    return Ok(false);
                }
                self.say(id, &[0xe0, 1, 0x8b]);
                self.must_disc = true;
                self.lossy_all();
            }
            32 => {
                let (Some(id), true) = (self.last(), self.live()) else { return Ok(false) };
                let h = self.rest(id);
                self.say(id, &h);
                self.say(id, &[0, 0]);
                self.errors += 1;
                self.strm(id).dead = true;
                self.strm(id).lossy = true;
            }
            35 => {
                self.c.notify_local_address_changed().map_err(|e| format!("{:?}", e))?;
                if self.quic {
                    self.c.quic_ping().map_err(|e| format!("{:?}", e))?;
                }
            }
            36 => {
                self.c.close_silent();
                self.end();
            }
            _ => self.s.reading = !self.s.reading,
        }
        Ok(true)
    }
    /// The server has a connection to use.
    fn live(&self) -> bool {
        self.s.gen > self.base && self.s.lost.is_none() && self.s.up && self.quic && self.control.is_some()
    }
}

const STARTS: [&str; 5] = ["fresh", "QUIC connected, CONNACK outstanding", "connected", "connected, small window", "connected, MQTT 3.1.1"];

fn run1(start: u8, present: bool, h: &[u8], l: &mut Local) -> Result<Option<usize>, (usize, String)> {
    let mut w = W::new(start != 4, start == 3, present);
    if start == 0 {
        w.held = true;
    }
    if start == 1 {
        w.mute = true;
    }
    guard(|| w.settle()).and_then(|r| r).map_err(|e| (0, format!("at the start: {}", e)))?;
    l.steps += 1;
    for (i, o) in h.iter().enumerate() {
        let r = guard(|| {
            let did = w.op(*o)?;
            if did && *o != 16 {
                w.settle()?;
            }
            Ok(did)
        });
        l.steps += 1;
        match r.and_then(|r: Result<bool, String>| r) {
            Ok(true) => {}
            Ok(false) => return Ok(Some(i)),
            Err(e) => return Err((i + 1, e)),
        }
        l.state(&(start, w.up, w.quic, w.held, w.mute, w.st.iter().map(|(k, s)| (*k, s.seen_api, s.api.len(), s.seen_resp, s.got.len(), s.want.len(), s.lossy)).collect::<Vec<_>>(), w.ops.iter().map(|o| (o.pid, o.done, o.answered)).collect::<Vec<_>>()));
    }
    // let everything through
    let r = guard(|| {
        if w.held {
            w.held = false;
            w.dropped = true;
        }
        w.s.reading = true;
        if w.mute {
            w.op(12)?;
        }
        w.settle()
    });
    r.and_then(|r| r).map_err(|e| (h.len(), format!("at the end: {}", e)))?;
    l.outcome(&(w.up, w.ops.iter().map(|o| (o.pid, o.kind, o.q, o.done)).collect::<Vec<_>>(), w.ticks));
    Ok(None)
}

fn one(ctx: &Ctx, start: u8, present: bool, h: &[u8], l: &mut Local) -> Option<usize> {
    let mut c = vec![start, present as u8];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let text = |h: &[u8]| h.iter().map(|o| NAMES[*o as usize]).collect::<Vec<_>>().join("; ");
    match run1(start, present, h, l) {
        Ok(p) => {
            ctx.sample(|| format!("{}: {}", STARTS[start as usize], text(h)));
            p
        }
        Err((n, e)) => {
            let what: String = e.chars().filter(|c| !c.is_ascii_digit()).take(70).collect();
            let sig = format!("{} / {}", h.get(n.max(1) - 1).map_or("", |o| NAMES[*o as usize]), what);
            ctx.fail(&sigify(&sig), format!("{}, session {}: {} -> {}", STARTS[start as usize], if present { "kept" } else { "lost" }, text(&h[..n]), e), &[&c[..2], &h[..n]].concat());
            Some(n.max(1) - 1)
        }
    }
}

pub fn x01(ctx: &Ctx) {
    for d in 1..=if ctx.thorough { 4 } else { 3 } {
        histories_pruned(ctx, STARTS.len() * 2, K, d, 2, |cfg, h, l| one(ctx, (cfg / 2) as u8, cfg % 2 == 1, h, l));
    }
    ctx.note("bounds", format!("{} moves, depth {}, from {} starts, session kept or lost", K, if ctx.thorough { 4 } else { 3 }, STARTS.len()));
}
pub fn x01_replay(ctx: &Ctx, c: &[u8]) {
    one(ctx, c[0], c[1] == 1, &c[2..], &mut Local::new());
}
