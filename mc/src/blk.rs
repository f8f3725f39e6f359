//! B01: the blocking client against a scripted server on the loopback network.
use crate::fw::*;
use crate::refcodec::*;
use flowsdk::mqtt_client::client::*;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::mqttv5::{authv5, connackv5, connectv5, disconnectv5, pingreqv5, pingrespv5, pubackv5, pubcompv5, publishv5, pubrecv5, pubrelv5, subackv5, subscribev5, unsubackv5, unsubscribev5, willv5};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc::{channel, Receiver, Sender};

type R<T> = Result<T, String>;

/// What the server does once it has read one whole packet: send these bytes, possibly close after them.
struct Reply {
    make: Box<dyn Fn(u16) -> Vec<u8> + Send>,
    close: bool,
}
enum Cmd {
    /// a new connection: answer its packets one after another with these
    Accept(Vec<Reply>),
    /// further answers on the same connection
    More(Vec<Reply>),
    /// send at once
    Push(Vec<u8>),
    /// close without lingering sockets, and give back what was received
    Finish(Sender<Vec<Vec<u8>>>),
}
struct Server {
    port: u16,
    tx: Sender<Cmd>,
}

fn read_packet(s: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Vec<u8>> {
    loop {
        if let Framing::Frame { hdr, total } = framing(buf) {
            let _ = hdr;
            if buf.len() >= total {
                let r = buf[..total].to_vec();
                buf.drain(..total);
                return Some(r);
            }
        }
        // acknowledge at once: the client's next small write waits for it
        unsafe {
            use std::os::fd::AsRawFd;
            let one = 1i32;
            libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const _, 4);
        }
        let mut t = [0u8; 8192];
        match s.read(&mut t) {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend(&t[..n]),
        }
    }
}
fn packet_id(f: &[u8]) -> u16 {
    let mut h = 1;
    while f[h] & 0x80 != 0 {
        h += 1;
    }
    h += 1;
    match f[0] >> 4 {
        3 if f[0] & 6 == 0 => 0,
        3 => {
            let n = u16::from_be_bytes([f[h], f[h + 1]]) as usize;
            u16::from_be_bytes([f[h + 2 + n], f[h + 3 + n]])
        }
        4..=11 => u16::from_be_bytes([f[h], f[h + 1]]),
        _ => 0,
    }
}

fn serve(l: TcpListener, rx: Receiver<Cmd>) {
    let mut got: Vec<Vec<u8>> = vec![];
    let mut conn: Option<TcpStream> = None;
    let mut old: Vec<TcpStream> = vec![];
    let mut buf = vec![];
    let run = |conn: &mut Option<TcpStream>, buf: &mut Vec<u8>, got: &mut Vec<Vec<u8>>, rs: Vec<Reply>| {
        for r in rs {
            let Some(s) = conn.as_mut() else { return };
            let Some(p) = read_packet(s, buf) else { return };
            let b = (r.make)(packet_id(&p));
            got.push(p);
            let _ = s.write_all(&b);
            if r.close {
                let _ = s.shutdown(std::net::Shutdown::Write);
                return;
            }
        }
    };
    for c in rx {
        match c {
            Cmd::Accept(rs) => {
                if let Some(o) = conn.take() {
                    old.push(o);
                }
                buf.clear();
                let (s, _) = l.accept().unwrap();
                s.set_nodelay(true).ok();
                conn = Some(s);
                run(&mut conn, &mut buf, &mut got, rs);
            }
            Cmd::More(rs) => run(&mut conn, &mut buf, &mut got, rs),
            Cmd::Push(b) => {
                if let Some(s) = conn.as_mut() {
                    let _ = s.write_all(&b);
                }
            }
            Cmd::Finish(tx) => {
                // whatever else has arrived
                if let Some(s) = conn.as_mut() {
                    s.set_nonblocking(true).ok();
                    while let Some(p) = read_packet(s, &mut buf) {
                        got.push(p);
                    }
                    if !buf.is_empty() {
                        got.push(buf.split_off(0));
                    }
                }
                for s in old.drain(..).chain(conn.take()) {
                    unsafe {
                        use std::os::fd::AsRawFd;
                        let lg = libc::linger { l_onoff: 1, l_linger: 0 };
                        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, std::mem::size_of_val(&lg) as u32);
                    }
                }
                tx.send(std::mem::take(&mut got)).ok();
            }
        }
    }
}
thread_local!(static SRV: RefCell<Option<Server>> = const { RefCell::new(None) });
fn srv(c: Cmd) {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(start());
        }
        s.as_ref().unwrap().tx.send(c).unwrap();
    })
}
fn start() -> Server {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let (tx, rx) = channel();
    std::thread::spawn(move || serve(l, rx));
    Server { port, tx }
}
fn peer() -> String {
    SRV.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(start());
        }
        format!("127.0.0.1:{}", s.as_ref().unwrap().port)
    })
}
fn finish() -> Vec<Vec<u8>> {
    let (tx, rx) = channel();
    srv(Cmd::Finish(tx));
    rx.recv().unwrap()
}

// ---------------------------------------------------------------- packets
fn props(n: usize) -> Vec<Property> {
    if n == 0 {
        vec![]
    } else {
        vec![Property::ReasonString(format!("r{}", n)), Property::UserProperty("k".into(), n.to_string())]
    }
}
/// Everything else a server may send while a call waits, by number; the identifier is that of the call's own packet.
fn noise(v: u8, k: u8, id: u16) -> P {
    let other = id ^ 0x100;
    if v == 5 {
        match k {
            0 => P::Publish5(publishv5::MqttPublish::new_with_prop(0, "n/0".into(), None, b"x".to_vec(), true, false, vec![])),
            1 => P::Publish5(publishv5::MqttPublish::new_with_prop(1, "n/1".into(), Some(id.max(1)), b"yy".to_vec(), false, false, vec![])),
            2 => P::Publish5(publishv5::MqttPublish::new_with_prop(2, "n/2".into(), Some(id.max(1)), vec![7; 300], false, true, vec![])),
            3 => P::PubRel5(pubrelv5::MqttPubRel::new(id.max(1), 0, vec![])),
            4 => P::PubAck5(pubackv5::MqttPubAck::new(other, 0, vec![])),
            5 => P::PubRec5(pubrecv5::MqttPubRec::new(other, 0x10, vec![])),
            6 => P::PubComp5(pubcompv5::MqttPubComp::new(other, 0, vec![])),
            7 => P::SubAck5(subackv5::MqttSubAck::new(other, vec![0], vec![])),
            8 => P::UnsubAck5(unsubackv5::MqttUnsubAck::new(other, vec![0], vec![])),
            9 => P::PingResp5(pingrespv5::MqttPingResp::new()),
            10 => P::Auth(authv5::MqttAuth::new(0x18, vec![Property::AuthenticationMethod("m".into())])),
            // the right identifier in the wrong kind of answer
            11 => P::SubAck5(subackv5::MqttSubAck::new(id.max(1), vec![1], vec![])),
            12 => P::UnsubAck5(unsubackv5::MqttUnsubAck::new(id.max(1), vec![0x11], vec![])),
            13 => P::PubAck5(pubackv5::MqttPubAck::new(id.max(1), 0x10, vec![])),
            14 => P::PubComp5(pubcompv5::MqttPubComp::new(id.max(1), 0, vec![])),
            15 => P::PubRec5(pubrecv5::MqttPubRec::new(id.max(1), 0, vec![])),
            _ => P::Disconnect5(disconnectv5::MqttDisconnect::new(0x8b, vec![])),
        }
    } else {
        match k {
            0 => P::Publish3(publishv3::MqttPublish::new("n/0".into(), 0, b"x".to_vec(), None, true, false)),
            1 => P::Publish3(publishv3::MqttPublish::new("n/1".into(), 1, b"yy".to_vec(), Some(id.max(1)), false, false)),
            2 => P::Publish3(publishv3::MqttPublish::new("n/2".into(), 2, vec![7; 300], Some(id.max(1)), false, true)),
            3 => P::PubRel3(pubrelv3::MqttPubRel::new(id.max(1))),
            4 => P::PubAck3(pubackv3::MqttPubAck::new(other)),
            5 => P::PubRec3(pubrecv3::MqttPubRec::new(other)),
            6 => P::PubComp3(pubcompv3::MqttPubComp::new(other)),
            7 => P::SubAck3(subackv3::MqttSubAck::new(other, vec![0])),
            8 => P::UnsubAck3(unsubackv3::MqttUnsubAck::new(other)),
            9 => P::PingResp3(pingrespv3::MqttPingResp::new()),
            10 => P::PubRel3(pubrelv3::MqttPubRel::new(id ^ 0x400)),
            11 => P::SubAck3(subackv3::MqttSubAck::new(id.max(1), vec![1])),
            12 => P::UnsubAck3(unsubackv3::MqttUnsubAck::new(id.max(1))),
            13 => P::PubAck3(pubackv3::MqttPubAck::new(id.max(1))),
            14 => P::PubComp3(pubcompv3::MqttPubComp::new(id.max(1))),
            15 => P::PubRec3(pubrecv3::MqttPubRec::new(id.max(1))),
            _ => P::PubRel3(pubrelv3::MqttPubRel::new(id ^ 0x200)),
        }
    }
}
const NOISE: u8 = 17;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Call {
    Sub(u8),
    Unsub(u8),
    Pub(u8),
    Ping,
    SubSend,
    UnsubSend,
    PubSend(u8),
    PingSend,
    Bye,
    ByeSend,
}
use Call::*;
const CALLS: [Call; 16] = [Sub(0), Sub(2), Unsub(1), Unsub(2), Pub(0), Pub(1), Pub(2), Ping, SubSend, UnsubSend, PubSend(0), PubSend(1), PubSend(2), PingSend, Bye, ByeSend];

impl Call {
    /// The kinds of noise that would be this call's own answer.
    fn own(self) -> &'static [u8] {
        match self {
            Sub(_) => &[11],
            Unsub(_) => &[12],
            Pub(1) => &[13],
            Pub(2) => &[15, 14],
            Ping => &[9],
            _ => &[],
        }
    }
    fn waits(self) -> bool {
        matches!(self, Sub(_) | Unsub(_) | Pub(1) | Pub(2) | Ping)
    }
}

/// The answer of the server: the last packet of the exchange, by variant.
fn answers(v: u8, c: Call, k: usize) -> Option<Vec<fn(u8, usize, u16) -> P>> {
    fn ack(v: u8, k: usize, id: u16) -> P {
        let rc = [0, 0x10, 0x87, 0x97][k % 4];
        if v == 5 { P::PubAck5(pubackv5::MqttPubAck::new(id, rc, props(k))) } else { P::PubAck3(pubackv3::MqttPubAck::new(id)) }
    }
    fn rec(v: u8, k: usize, id: u16) -> P {
        let rc = [0, 0x10, 0x80, 0x9b, 0][k % 5];
        if v == 5 { P::PubRec5(pubrecv5::MqttPubRec::new(id, rc, props(k))) } else { P::PubRec3(pubrecv3::MqttPubRec::new(id)) }
    }
    fn comp(v: u8, k: usize, id: u16) -> P {
        let rc = [0, 0, 0, 0, 0x92][k % 5];
        if v == 5 { P::PubComp5(pubcompv5::MqttPubComp::new(id, rc, props(k / 2))) } else { P::PubComp3(pubcompv3::MqttPubComp::new(id)) }
    }
    fn sub(v: u8, k: usize, id: u16) -> P {
        let rc = vec![[0, 1, 2, 0x80][k % 4]];
        if v == 5 { P::SubAck5(subackv5::MqttSubAck::new(id, rc, props(k))) } else { P::SubAck3(subackv3::MqttSubAck::new(id, rc)) }
    }
    fn unsub(v: u8, k: usize, id: u16) -> P {
        let rc = [vec![0], vec![0x11, 0], vec![0x83, 0x87]][k % 3].clone();
        if v == 5 { P::UnsubAck5(unsubackv5::MqttUnsubAck::new(id, rc, props(k))) } else { P::UnsubAck3(unsubackv3::MqttUnsubAck::new(id)) }
    }
    fn pong(v: u8, _: usize, _: u16) -> P {
        if v == 5 { P::PingResp5(pingrespv5::MqttPingResp::new()) } else { P::PingResp3(pingrespv3::MqttPingResp::new()) }
    }
    let n = |m: usize| if v == 5 { m } else { 1 };
    Some(match c {
        Sub(_) if k < if v == 5 { 4 } else { 4 } => vec![sub],
        Unsub(_) if k < n(3) => vec![unsub],
        Pub(1) if k < n(4) => vec![ack],
        Pub(2) if k < n(5) => {
            if v == 5 && (k == 2 || k == 3) {
                vec![rec] // refused: the exchange ends here
            } else {
                vec![rec, comp]
            }
        }
        Ping if k == 0 => vec![pong],
        _ if k == 0 && !c.waits() => vec![],
        _ => return None,
    })
}

fn topics(n: u8) -> Vec<&'static str> {
    ["a/b", "c/#"][..n as usize].to_vec()
}
fn pay(q: u8) -> Vec<u8> {
    vec![q + 1; [0, 5, 200][q as usize]]
}
/// The packet the call must put on the wire.
fn request(v: u8, c: Call, id: u16) -> P {
    let pid = |q: u8| if q > 0 { Some(id) } else { None };
    match (v, c) {
        (5, Sub(q)) => P::Subscribe5(subscribev5::MqttSubscribe::new(id, vec![subscribev5::TopicSubscription { topic_filter: "s/+".into(), qos: q, no_local: false, retain_as_published: false, retain_handling: 0 }], vec![])),
        (5, SubSend) => request(5, Sub(1), id),
        (5, Unsub(n)) => P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(id, topics(n).iter().map(|s| s.to_string()).collect(), vec![])),
        (5, UnsubSend) => request(5, Unsub(2), id),
        (5, Pub(q)) | (5, PubSend(q)) => P::Publish5(publishv5::MqttPublish::new_with_prop(q, "p/t".into(), pid(q), pay(q), q == 1, false, vec![])),
        (5, Ping) | (5, PingSend) => P::PingReq5(pingreqv5::MqttPingReq::new()),
        (5, Bye) => P::Disconnect5(disconnectv5::MqttDisconnect::new(4, vec![])),
        (5, ByeSend) => P::Disconnect5(disconnectv5::MqttDisconnect::new(0, vec![])),
        (_, Sub(q)) => P::Subscribe3(subscribev3::MqttSubscribe::new(id, vec![subscribev3::SubscriptionTopic { topic_filter: "s/+".into(), qos: q }])),
        (_, SubSend) => request(4, Sub(1), id),
        (_, Unsub(n)) => P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(id, topics(n).iter().map(|s| s.to_string()).collect())),
        (_, UnsubSend) => request(4, Unsub(2), id),
        (_, Pub(q)) | (_, PubSend(q)) => P::Publish3(publishv3::MqttPublish::new("p/t".into(), q, pay(q), pid(q), q == 1, false)),
        (_, Ping) | (_, PingSend) => P::PingReq3(pingreqv3::MqttPingReq::new()),
        (_, Bye) | (_, ByeSend) => P::Disconnect3(disconnectv3::MqttDisconnect::new()),
    }
}

/// What one call must give, in one comparable text.
fn expect(v: u8, c: Call, id: u16, last: Option<&P>) -> String {
    let sub = |i: u16, rc: Vec<u8>, p: Vec<Property>| format!("{:?}", SubscribeResult { packet_id: i, reason_codes: rc, properties: p });
    let uns = |i: u16, rc: Vec<u8>, p: Vec<Property>| format!("{:?}", UnsubscribeResult { packet_id: i, reason_codes: rc, properties: p });
    let pu = |i: u16, rc: u8, p: Option<Vec<Property>>, q: u8| format!("{:?}", PublishResult { packet_id: Some(i), reason_code: Some(rc), properties: p, qos: q });
    match c {
        Sub(_) | Unsub(_) | Pub(1) | Pub(2) | Ping => match last {
            None => "error".into(),
            Some(P::SubAck5(a)) => sub(a.packet_id, a.reason_codes.clone(), a.properties.clone()),
            Some(P::SubAck3(a)) => sub(a.message_id, a.return_codes.clone(), vec![]),
            Some(P::UnsubAck5(a)) => uns(a.packet_id, a.reason_codes.clone(), a.properties.clone()),
            Some(P::UnsubAck3(a)) => uns(a.message_id, vec![0; if let Unsub(n) = c { n as usize } else { 0 }], vec![]),
            Some(P::PubAck5(a)) => pu(a.packet_id, a.reason_code, Some(a.properties.clone()), 1),
            Some(P::PubRec5(a)) => pu(a.packet_id, a.reason_code, Some(a.properties.clone()), 2),
            Some(P::PubComp5(a)) => pu(a.packet_id, a.reason_code, Some(a.properties.clone()), 2),
            Some(P::PubAck3(a)) => pu(a.message_id, 0, None, 1),
            Some(P::PubComp3(a)) => pu(a.message_id, 0, None, 2),
            Some(_) => format!("{:?}", PingResult { success: true }),
        },
        Pub(_) => format!("{:?}", PublishResult { packet_id: None, reason_code: None, properties: None, qos: 0 }),
        SubSend | UnsubSend => format!("{:?}", id),
        PubSend(0) => "None".into(),
        PubSend(_) => format!("{:?}", Some(id)),
        PingSend | Bye | ByeSend => "()".into(),
    }
    .to_string()
    .replace("PHANTOM", if v == 5 { "" } else { "" })
}
fn txt<T: std::fmt::Debug>(r: std::io::Result<T>) -> String {
    match r {
        Ok(t) => format!("{:?}", t),
        Err(_) => "error".into(),
    }
}
fn perform(c: &mut MqttClient, k: Call) -> String {
    match k {
        Sub(q) => txt(c.subscribed("s/+", q)),
        Unsub(1) => txt(c.unsubscribed_single("a/b")),
        Unsub(n) => txt(c.unsubscribed(topics(n))),
        Pub(q) => txt(c.published("p/t", &pay(q), q, q == 1)),
        Ping => txt(c.pingd()),
        SubSend => txt(c.subscribe_send("s/+", 1)),
        UnsubSend => txt(c.unsubscribe_send(topics(2))),
        PubSend(q) => txt(c.publish_send("p/t", &pay(q), q, q == 1)),
        PingSend => txt(c.ping_send()),
        Bye => txt(c.disconnected(4)),
        ByeSend => txt(c.disconnect_send()),
    }
}

// ---------------------------------------------------------------- the session under test
struct W {
    v: u8,
    c: MqttClient,
    next: u16,
    pend: std::collections::BTreeMap<u16, String>,
    wire: Vec<Vec<u8>>,
    unhandled: Vec<P>,
    /// fire-and-forget operations not answered yet
    open: Vec<(u16, Call)>,
}
fn options(v: u8) -> MqttClientOptions {
    MqttClientOptions::builder().peer(peer()).client_id("blk").mqtt_version(v).clean_start(false).keep_alive(30).build()
}
fn connack(v: u8, sp: bool, rc: u8, p: Option<Vec<Property>>) -> P {
    if v == 5 {
        P::ConnAck5(connackv5::MqttConnAck::new(sp, rc, p))
    } else {
        P::ConnAck3(connackv3::MqttConnAck::new(sp, rc))
    }
}
fn connect_packet(o: &MqttClientOptions, pr: Vec<Property>) -> P {
    if o.mqtt_version == 5 {
        P::Connect5(connectv5::MqttConnect::new(o.client_id.clone(), o.username.clone(), o.password.clone(), o.will.clone(), o.keep_alive, o.clean_start, pr))
    } else {
        let mut c = connectv3::MqttConnect::new(o.client_id.clone(), o.keep_alive, o.clean_start);
        c.username = o.username.clone();
        c.password = o.password.clone();
        c.will = o.will.as_ref().map(|w| connectv3::Will { retain: w.will_retain, qos: w.will_qos, topic: w.will_topic.clone(), message: w.will_message.clone() });
        P::Connect3(c)
    }
}
impl W {
    fn new(v: u8, burn: u32) -> W {
        let c = if burn == 0 {
            MqttClient::new(options(v))
        } else {
            let mut s = flowsdk::mqtt_session::ClientSession::new();
            for _ in 0..burn {
                s.next_packet_id();
            }
            MqttClient::new_with_sess(options(v), s)
        };
        W { v, c, next: burn as u16, pend: Default::default(), wire: vec![], unhandled: vec![], open: vec![] }
    }
    fn connect(&mut self, sp: bool, rc: u8) -> R<()> {
        let a = connack(self.v, sp, rc, None);
        let b = refenc(&a);
        srv(Cmd::Accept(vec![Reply { make: Box::new(move |_| b.clone()), close: false }]));
        self.wire.push(refenc(&connect_packet(&options(self.v), vec![])));
        let got = txt(self.c.connected());
        let want = format!("{:?}", ConnectionResult { reason_code: rc, session_present: sp, properties: None });
        if got != want {
            return Err(format!("connected() gave {}, the server said {}", got, want));
        }
        if rc == 0 && !sp {
            self.pend.clear();
            self.open.clear();
        }
        self.look()
    }
    fn fresh(&mut self) -> u16 {
        loop {
            self.next = if self.next == 65535 { 1 } else { self.next + 1 };
            if !self.pend.contains_key(&self.next) {
                return self.next;
            }
        }
    }
    /// One call; the server sends `before`, then the answer of variant `k`; `cut`: so many bytes of all that, then the end of the stream.
    fn call(&mut self, c: Call, before: &[u8], between: &[u8], k: usize, cut: Option<usize>) -> R<usize> {
        let v = self.v;
        let needs_id = !matches!(c, Pub(0) | PubSend(0) | Ping | PingSend | Bye | ByeSend);
        let id = if needs_id { self.fresh() } else { 0 };
        let ans = answers(v, c, k).unwrap();
        self.wire.push(refenc(&request(v, c, id)));
        let mut replies = vec![];
        let mut total = 0;
        let mut left = cut;
        let mut last = None;
        let mut seen = vec![]; // whole packets that reach the client
        let mut closed = false;
        let steps = ans.len().max(1);
        for i in 0..steps {
            let mut ps: Vec<P> = (if i == 0 { before } else { between }).iter().map(|n| noise(v, *n, id)).collect();
            if let Some(a) = ans.get(i) {
                ps.push(a(v, k, id));
            }
            let mut bytes = vec![];
            for (j, p) in ps.iter().enumerate() {
                let b = refenc(p);
                total += b.len();
                let take = match left {
                    None => b.len(),
                    Some(n) if n >= b.len() => {
                        left = Some(n - b.len());
                        b.len()
                    }
                    Some(n) => {
                        closed = true;
                        left = Some(0);
                        n
                    }
                };
                bytes.extend(&b[..take]);
                if take == b.len() && !closed {
                    if j + 1 == ps.len() && ans.get(i).is_some() {
                        if i + 1 == ans.len() {
                            last = Some(p.clone());
                        }
                    } else {
                        seen.push(p.clone());
                    }
                }
                if closed {
                    break;
                }
            }
            if !closed && i == 0 && ans.len() == 2 {
                // the client goes on with PUBREL
                self.wire.push(refenc(&if v == 5 { P::PubRel5(pubrelv5::MqttPubRel::new(id, 0, vec![])) } else { P::PubRel3(pubrelv3::MqttPubRel::new(id)) }));
            }
            let stop = closed;
            replies.push(Reply { make: Box::new(move |_| bytes.clone()), close: stop });
            if stop {
                break;
            }
        }
        srv(Cmd::More(replies));
        let got = perform(&mut self.c, c);
        let want = expect(v, c, id, last.as_ref());
        if got != want {
            return Err(format!("the call {:?} gave {}, expected {}", c, got, want));
        }
        if c.waits() {
            self.unhandled.extend(seen);
        }
        match c {
            SubSend => {
                self.pend.insert(id, format!("s {:?}", "s/+"));
                self.open.push((id, c));
            }
            UnsubSend => {
                self.pend.insert(id, format!("u {:?}", topics(2)));
                self.open.push((id, c));
            }
            PubSend(q) if q > 0 => {
                self.pend.insert(id, format!("p {:?}", ("p/t", q)));
                self.open.push((id, c));
            }
            _ => {}
        }
        self.look()?;
        Ok(total)
    }
    fn look(&mut self) -> R<()> {
        if self.c.peek_unhandled_packets() != &self.unhandled {
            return Err(format!("unhandled packets {:?}, expected {:?}", self.c.peek_unhandled_packets(), self.unhandled));
        }
        let mut got = std::collections::BTreeMap::new();
        for (i, t) in self.c.get_pending_subscribes() {
            got.insert(*i, format!("s {:?}", t));
        }
        for (i, t) in self.c.get_pending_unsubscribes() {
            got.insert(*i, format!("u {:?}", t));
        }
        for (i, t) in self.c.get_pending_publishes() {
            got.insert(*i, format!("p {:?}", (t.0.as_str(), t.1)));
        }
        if got != self.pend {
            return Err(format!("pending operations {:?}, expected {:?}", got, self.pend));
        }
        Ok(())
    }
    /// recv_packet gives exactly the next packet of the server
    fn receive(&mut self, p: P) -> R<()> {
        srv(Cmd::Push(refenc(&p)));
        let got = txt(self.c.recv_packet());
        if got != format!("{:?}", Some(&p)) {
            return Err(format!("recv_packet gave {}, the server sent {:?}", got, p));
        }
        self.look()
    }
    fn complete(&mut self) -> R<bool> {
        if self.open.is_empty() {
            return Ok(false);
        }
        let (id, k) = self.open.remove(0);
        let v = self.v;
        let p = match k {
            SubSend => answers(v, Sub(1), 1).unwrap()[0](v, 1, id),
            UnsubSend => answers(v, Unsub(2), 0).unwrap()[0](v, 0, id),
            PubSend(1) => answers(v, Pub(1), 0).unwrap()[0](v, 0, id),
            _ => noise(v, 14, id),
        };
        self.receive(p)?;
        // completing it as something else does nothing
        let (a, b, c);
        match k {
            SubSend => {
                b = txt(Ok(self.c.complete_unsubscribe(id)));
                c = txt(Ok(self.c.complete_publish(id)));
                a = txt(Ok(self.c.complete_subscribe(id)));
            }
            UnsubSend => {
                a = txt(Ok(self.c.complete_subscribe(id)));
                c = txt(Ok(self.c.complete_publish(id)));
                b = txt(Ok(self.c.complete_unsubscribe(id)));
            }
            _ => {
                a = txt(Ok(self.c.complete_subscribe(id)));
                b = txt(Ok(self.c.complete_unsubscribe(id)));
                c = txt(Ok(self.c.complete_publish(id)));
            }
        }
        let want = match k {
            SubSend => ["Some(\"s/+\")".to_string(), "None".into(), "None".into()],
            UnsubSend => ["None".into(), format!("{:?}", Some(topics(2))), "None".into()],
            PubSend(q) => ["None".into(), "None".into(), format!("{:?}", Some(("p/t", q)))],
            _ => unreachable!(),
        };
        if [a.clone(), b.clone(), c.clone()] != want {
            return Err(format!("completing {:?} gave {:?}, expected {:?}", k, [a, b, c], want));
        }
        self.pend.remove(&id);
        self.look()?;
        Ok(true)
    }
    fn end(self) -> R<()> {
        let W { c, wire, .. } = self;
        let got = finish();
        drop(c);
        if got != wire {
            let i = (0..).find(|i| got.get(*i) != wire.get(*i)).unwrap();
            return Err(format!("packet {} on the wire is {}, expected {}", i, got.get(i).map_or("missing".into(), |b| hex(b)), wire.get(i).map_or("none".into(), |b| hex(b))));
        }
        Ok(())
    }
}

fn ver(k: usize) -> u8 {
    [5, 4, 3][k]
}

/// One call right after connecting: [0, version, call, variant, n, noise.., m, noise between.., cut(2)]
fn single(l: &mut Local, v: u8, c: Call, k: usize, before: &[u8], between: &[u8], cut: Option<usize>) -> R<usize> {
    let mut w = W::new(v, 0);
    let r = (|| {
        w.connect(false, 0)?;
        l.steps += 2;
        w.call(c, before, between, k, cut)
    })();
    match r {
        Ok(n) => w.end().map(|_| n),
        Err(e) => {
            finish();
            Err(e)
        }
    }
}
fn guarded(f: impl FnOnce() -> R<usize>) -> R<usize> {
    match guard(f) {
        Ok(r) => r,
        Err(p) => {
            finish();
            Err(format!("panic {}", p))
        }
    }
}
fn case_single(v: u8, ci: usize, k: usize, before: &[u8], between: &[u8], cut: Option<usize>) -> Vec<u8> {
    let mut c = vec![0, v, ci as u8, k as u8, before.len() as u8];
    c.extend(before);
    c.push(between.len() as u8);
    c.extend(between);
    let x = cut.map_or(0xffff, |x| x as u16);
    c.extend(x.to_be_bytes());
    c
}
fn report(ctx: &Ctx, e: String, what: String, c: &[u8]) {
    ctx.fail(&sigify(e.split(" gave ").next().unwrap().split([':', '[']).next().unwrap()), format!("{}: {}", what, e), c);
}
fn do_single(ctx: &Ctx, l: &mut Local, v: u8, ci: usize, k: usize, before: &[u8], between: &[u8], cut: Option<usize>) -> usize {
    let c = case_single(v, ci, k, before, between, cut);
    case(&c);
    l.evals += 1;
    match guarded(|| single(l, v, CALLS[ci], k, before, between, cut)) {
        Ok(n) => {
            l.outcome(&c);
            n
        }
        Err(e) => {
            report(ctx, e, format!("MQTT version {}, {:?}, answer variant {}, noise {:?} {:?}, cut {:?}", v, CALLS[ci], k, before, between, cut), &c);
            0
        }
    }
}

/// Sequences: [1, version, burn, op..]
const SEQ: usize = 16 + 3;
fn sequence(l: &mut Local, v: u8, burn: u32, h: &[u8]) -> Result<Option<usize>, (usize, String)> {
    let mut w = W::new(v, burn);
    let mut at = 0;
    let r = (|| -> R<Option<usize>> {
        w.connect(true, 0)?;
        for (i, o) in h.iter().enumerate() {
            at = i;
            l.steps += 1;
            match *o as usize {
                o if o < 16 => {
                    let c = CALLS[o];
                    if matches!(c, Bye | ByeSend | PubSend(0) | Pub(0)) && i + 1 < h.len() && burn == 0 && i % 2 == 1 {
                        return Ok(Some(i)); // one parity is enough for the calls without effect on later ones
                    }
                    let nz: Vec<u8> = if c.waits() { vec![(i as u8 * 3 + o as u8) % 9] } else { vec![] };
                    let between = if c == Pub(2) { vec![1] } else { vec![] };
                    w.call(c, &nz, &between, if c.waits() && v == 5 && c != Ping { i % 3 } else { 0 }, None)?;
                }
                16 => {
                    if !w.complete()? {
                        return Ok(Some(i));
                    }
                }
                o => w.connect(o == 18, 0)?,
            }
        }
        Ok(None)
    })();
    l.outcome(&(v, burn, w.pend.keys().copied().collect::<Vec<_>>(), w.unhandled.len(), w.next, h.len()));
    l.state(&(v, burn, w.pend.values().cloned().collect::<Vec<_>>(), w.unhandled.iter().map(|p| format!("{:?}", p)).collect::<Vec<_>>(), w.next));
    match r {
        Ok(None) => w.end().map(|_| None).map_err(|e| (h.len() - 1, e)),
        Ok(x) => {
            finish();
            Ok(x)
        }
        Err(e) => {
            finish();
            Err((at, e))
        }
    }
}
fn do_sequence(ctx: &Ctx, l: &mut Local, v: u8, burn: u32, h: &[u8]) -> Option<usize> {
    let mut c = vec![1, v, burn.saturating_sub(65000) as u8];
    c.extend(h);
    if burn > 0 {
        c[2] = (burn - 65400) as u8;
    }
    case(&c);
    l.evals += 1;
    let (at, e) = match guard(|| sequence(l, v, burn, h)) {
        Ok(Ok(x)) => return x,
        Ok(Err(x)) => x,
        Err(p) => {
            finish();
            (h.len() - 1, format!("panic {}", p))
        }
    };
    c.truncate(3 + at + 1);
    let names: Vec<String> = h[..=at].iter().map(|o| if *o < 16 { format!("{:?}", CALLS[*o as usize]) } else { ["Complete", "Reconnect clean", "Reconnect session"][*o as usize - 16].into() }).collect();
    report(ctx, e, format!("MQTT version {}, counter {}, {:?}", v, burn, names), &c);
    Some(at)
}

fn opts_of(v: u8, oi: usize) -> (MqttClientOptions, Vec<Property>) {
    let mut x = oi;
    let mut pick = |n: usize| {
        let r = x % n;
        x /= n;
        r
    };
    let mut o = options(v);
    let mut pr = vec![];
    o.clean_start = pick(2) == 1;
    match pick(3) {
        0 => {}
        k => o.will = Some(willv5::Will { will_retain: k == 1, will_qos: k as u8, will_topic: "w/t".into(), will_message: vec![9; k * 70], properties: Default::default() }),
    }
    if pick(2) == 1 {
        o.username = Some("u".into());
        if pick(2) == 1 {
            o.password = Some(vec![0, 255]);
        }
    } else {
        pick(2);
    }
    o.keep_alive = [0, 30, 65535][pick(3)];
    o.client_id = ["", "cid"][pick(2)].into();
    if v == 5 {
        if pick(2) == 1 {
            o.session_expiry_interval = Some(3600);
            pr.push(Property::SessionExpiryInterval(3600));
        }
        if pick(2) == 1 {
            o.maximum_packet_size = Some(1000);
            pr.push(Property::MaximumPacketSize(1000));
        } else {
            o.maximum_packet_size = None;
        }
        match pick(3) {
            0 => o.request_response_information = None,
            k => {
                o.request_response_information = Some(k == 1);
                pr.push(Property::RequestResponseInformation((k == 1) as u8));
            }
        }
        match pick(3) {
            0 => o.request_problem_information = None,
            k => {
                o.request_problem_information = Some(k == 1);
                pr.push(Property::RequestProblemInformation((k == 1) as u8));
            }
        }
    }
    (o, pr)
}
/// The handshake: [2, version, options(2), answer, how, cut]
const CACK: usize = 6;
fn handshake(ctx: &Ctx, l: &mut Local, v: u8, oi: usize, a: usize, how: usize, cut: Option<usize>) -> usize {
    let c = [2, v, (oi >> 8) as u8, oi as u8, a as u8, how as u8, cut.map_or(255, |x| x as u8)];
    case(&c);
    l.evals += 1;
    l.steps += 1;
    let (o, pr) = opts_of(v, oi);
    let ans = match a {
        0 => connack(v, false, 0, None),
        1 => connack(v, true, 0, Some(vec![Property::ReceiveMaximum(5), Property::AssignedClientIdentifier("as".into())])),
        2 => connack(v, false, if v == 5 { 0x87 } else { 5 }, Some(vec![Property::ReasonString("no".into())])),
        3 => connack(v, false, if v == 5 { 0x9d } else { 1 }, None),
        4 => connack(v, true, 0, None),
        _ => noise(v, 9, 0), // not a CONNACK at all
    };
    let full = refenc(&ans);
    let n = full.len();
    let bytes = full[..cut.unwrap_or(n)].to_vec();
    let closed = cut.is_some();
    let want = match (&ans, closed) {
        (P::ConnAck5(k), false) => format!("{:?}", ConnectionResult { reason_code: k.reason_code, session_present: k.session_present, properties: k.properties.clone() }),
        (P::ConnAck3(k), false) => format!("{:?}", ConnectionResult { reason_code: k.return_code, session_present: k.session_present, properties: None }),
        _ => "error".into(),
    };
    let wire = vec![refenc(&connect_packet(&o, pr))];
    let r = guarded(|| {
        let mut cl = MqttClient::new(o);
        srv(Cmd::Accept(vec![Reply { make: Box::new(move |_| bytes.clone()), close: closed }]));
        if how == 0 {
            let got = txt(cl.connected());
            if got != want {
                finish();
                return Err(format!("connected() gave {}, expected {}", got, want));
            }
        } else {
            let got = txt(cl.connect_send());
            let pk = txt(cl.recv_packet());
            let w = if closed { if pk == "error" { "error".into() } else { "None".to_string() } } else { format!("{:?}", Some(&ans)) };
            if got != "()" || pk != w {
                finish();
                return Err(format!("connect_send() gave {} and recv_packet {}, expected {}", got, pk, w));
            }
        }
        let got = finish();
        drop(cl);
        if got != wire {
            return Err(format!("CONNECT on the wire is {:?}, expected {}", got.iter().map(|b| hex(b)).collect::<Vec<_>>(), hex(&wire[0])));
        }
        Ok(n)
    });
    match r {
        Ok(n) => {
            l.outcome(&c);
            n
        }
        Err(e) => {
            report(ctx, e, format!("MQTT version {}, options {}, answer {}, way {}, cut {:?}", v, oi, a, how, cut), &c);
            0
        }
    }
}

/// Nobody listens: an error, and no operation works afterwards. [3, version]
fn nobody(ctx: &Ctx, l: &mut Local, v: u8) {
    let c = [3, v];
    case(&c);
    l.evals += 1;
    let r = guard(|| -> R<()> {
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let mut o = options(v);
        o.peer = format!("127.0.0.1:{}", port);
        let mut cl = MqttClient::new(o);
        for call in CALLS {
            if perform(&mut cl, call) != "error" {
                return Err(format!("the call {:?} gave success without a connection", call));
            }
        }
        if cl.connect_send().is_ok() {
            return Err("connect_send gave success although nobody listens".into());
        }
        if cl.connected().is_ok() {
            return Err("connected gave success although nobody listens".into());
        }
        for call in CALLS {
            if perform(&mut cl, call) != "error" {
                return Err(format!("the call {:?} gave success without a connection", call));
            }
        }
        Ok(())
    });
    if let Err(e) = r.unwrap_or_else(Err) {
        report(ctx, e, format!("MQTT version {}", v), &c);
    }
}

pub fn b01(ctx: &Ctx) {
    let th = ctx.thorough;
    for v in 0..3 {
        nobody(ctx, &mut Local::new(), ver(v));
    }
    // handshakes
    let n5 = 2 * 3 * 2 * 2 * 3 * 2 * 36;
    let n3 = 2 * 3 * 2 * 2 * 3 * 2;
    ctx.par(n5 + 2 * n3, |i, l| {
        let (v, oi) = if i < n5 { (5, i) } else { (4 - ((i - n5) % 2) as u8, (i - n5) / 2) };
        let step = 1;
        for how in 0..2 {
            // every answer for a few options, one answer for all of them
            for a in 0..CACK {
                if oi % step == 0 || a == oi % CACK {
                    handshake(ctx, l, v, oi, a, how, None);
                }
            }
        }
    });
    ctx.par(3 * CACK * 2, |i, l| {
        let n = handshake(ctx, l, ver(i / 2 / CACK), 7, i / 2 % CACK, i % 2, None);
        for cut in 0..n {
            handshake(ctx, l, ver(i / 2 / CACK), 7, i / 2 % CACK, i % 2, Some(cut));
        }
    });
    // single calls: every answer variant, up to two (three) other packets before it, the stream ending at every byte
    ctx.par(3 * 16 * 5, |i, l| {
        let (v, ci, k) = (ver(i / 80), i / 5 % 16, i % 5);
        let c = CALLS[ci];
        if answers(v, c, k).is_none() {
            return;
        }
        if !c.waits() {
            do_single(ctx, l, v, ci, 0, &[], &[], None);
            return;
        }
        let ns: Vec<u8> = (0..NOISE).filter(|n| !c.own()[..c.own().len().min(1)].contains(n)).collect();
        let mut lists: Vec<Vec<u8>> = vec![vec![]];
        for a in &ns {
            lists.push(vec![*a]);
            for b in &ns {
                lists.push(vec![*a, *b]);
                if th || k == 0 {
                    for d in &ns {
                        lists.push(vec![*a, *b, *d]);
                    }
                }
            }
        }
        let two = c == Pub(2) && answers(v, c, k).unwrap().len() == 2;
        for b in &lists {
            let n = do_single(ctx, l, v, ci, k, b, &[], None);
            if b.len() <= 1 {
                for cut in 0..n {
                    do_single(ctx, l, v, ci, k, b, &[], Some(cut));
                }
            }
            if two && b.len() <= 1 {
                for d in (0..NOISE).filter(|n| *n != 14) {
                    let n = do_single(ctx, l, v, ci, k, b, &[d], None);
                    if b.is_empty() {
                        for cut in 0..n {
                            do_single(ctx, l, v, ci, k, b, &[d], Some(cut));
                        }
                    }
                }
            }
        }
    });
    // sequences of calls
    let d = if th { 5 } else { 4 };
    histories_pruned(ctx, 2, SEQ, d, 2, |cfg, h, l| do_sequence(ctx, l, ver(cfg), 0, h));
    // the identifier counter coming round to operations that are pending
    histories_pruned(ctx, 2, SEQ, if th { 4 } else { 3 }, 2, |cfg, h, l| do_sequence(ctx, l, ver(cfg), 65534, h));
    ctx.par(4, |i, l| wrap(ctx, l, ver(i % 2), i / 2));
    ctx.note("bounds", format!("handshakes: all option combinations x answers x both ways of connecting, CONNACK cut at every byte; each call x answer variant x up to {} other packets (17 kinds) before it, cut at every byte; call sequences of length {}", 3, d));
}

/// The counter comes all the way round while some operations are pending. [4, version, k]
fn wrap(ctx: &Ctx, l: &mut Local, v: u8, k: usize) {
    let c = [4, v, k as u8];
    case(&c);
    let r = guarded(|| {
        let mut w = W::new(v, 65535 - 3 - k as u32);
        w.connect(true, 0)?;
        // pending at the end of the range and at its start
        for call in [PubSend(1), SubSend, UnsubSend, PubSend(2), PubSend(1), SubSend] {
            w.call(call, &[], &[], 0, None)?;
        }
        // go round: QoS 0 uses none, so complete calls one by one
        let mut n = 0;
        while n < 65535 - 6 {
            w.call(PubSend(1), &[], &[], 0, None)?;
            let (id, _) = w.open.pop().unwrap();
            w.c.complete_publish(id);
            w.pend.remove(&id);
            n += 1;
            if n % 4096 == 0 {
                case(&c);
            }
        }
        for call in [PubSend(1), SubSend, UnsubSend, PubSend(2), PubSend(1), SubSend] {
            w.call(call, &[], &[], 0, None)?;
        }
        l.steps += 65535;
        w.end().map(|_| 0)
    });
    l.evals += 1;
    if let Err(e) = r {
        report(ctx, e, format!("MQTT version {}, a full round of the identifier counter", v), &c);
    }
}

pub fn b01_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    match c[0] {
        0 => {
            let n = c[4] as usize;
            let m = c[5 + n] as usize;
            let before = &c[5..5 + n];
            let between = &c[6 + n..6 + n + m];
            let x = u16::from_be_bytes([c[6 + n + m], c[7 + n + m]]);
            do_single(ctx, &mut l, c[1], c[2] as usize, c[3] as usize, before, between, if x == 0xffff { None } else { Some(x as usize) });
        }
        1 => {
            do_sequence(ctx, &mut l, c[1], if c[2] == 0 { 0 } else { 65400 + c[2] as u32 }, &c[3..]);
        }
        2 => {
            handshake(ctx, &mut l, c[1], (c[2] as usize) << 8 | c[3] as usize, c[4] as usize, c[5] as usize, if c[6] == 255 { None } else { Some(c[6] as usize) });
        }
        3 => nobody(ctx, &mut l, c[1]),
        _ => wrap(ctx, &mut l, c[1], c[2] as usize),
    }
}
