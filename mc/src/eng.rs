//! E01..E10: the sans-I/O MQTT engine under every bounded sequence of application calls, server
//! packets, connection events and time, watched by a broker-side monitor on a virtual clock.
//!
//! The monitor is written from the property texts: it knows what the client was asked to do, what
//! the server has said and what time it is, and derives from that which packets and events are owed
//! (must appear now), which are allowed, and which are wrong.
use crate::env::*;
use crate::fw::*;
use crate::refcodec::{refenc, want, Want};
use flowsdk::mqtt_client::client::{ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::error::MqttClientError;
use flowsdk::mqtt_client::no_io_client::NoIoMqttClient;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::mqttv5::*;
use std::collections::VecDeque;
use std::time::Instant;

/// What a client must offer to be driven: the engine and its no-I/O wrapper.
pub trait Drv {
    fn incoming(&mut self, b: &[u8]) -> Vec<MqttEvent>;
    fn tick(&mut self, t: Instant) -> Vec<MqttEvent>;
    fn next(&self) -> Option<Instant>;
    fn out(&mut self) -> Vec<u8>;
    fn events(&mut self) -> Vec<MqttEvent>;
    fn connect(&mut self);
    fn publish(&mut self, c: PublishCommand) -> Result<Option<u16>, MqttClientError>;
    fn subscribe(&mut self, c: SubscribeCommand) -> Result<u16, MqttClientError>;
    fn unsubscribe(&mut self, c: UnsubscribeCommand) -> Result<u16, MqttClientError>;
    fn ping(&mut self);
    fn disconnect(&mut self);
    fn auth(&mut self, rc: u8, p: Vec<Property>);
    fn lost(&mut self);
    fn up(&self) -> bool;
    fn schedule(&mut self, _t: Instant) -> bool {
        false
    }
    fn reset_transport(&mut self) -> bool {
        false
    }
}
macro_rules! drv {
    ($t:ty, $ping:ident $(, $extra:item)*) => {
        impl Drv for $t {
            fn incoming(&mut self, b: &[u8]) -> Vec<MqttEvent> { self.handle_incoming(b) }
            fn tick(&mut self, t: Instant) -> Vec<MqttEvent> { self.handle_tick(t) }
            fn next(&self) -> Option<Instant> { self.next_tick_at() }
            fn out(&mut self) -> Vec<u8> { self.take_outgoing() }
            fn events(&mut self) -> Vec<MqttEvent> { self.take_events() }
            fn connect(&mut self) { <$t>::connect(self) }
            fn publish(&mut self, c: PublishCommand) -> Result<Option<u16>, MqttClientError> { <$t>::publish(self, c) }
            fn subscribe(&mut self, c: SubscribeCommand) -> Result<u16, MqttClientError> { <$t>::subscribe(self, c) }
            fn unsubscribe(&mut self, c: UnsubscribeCommand) -> Result<u16, MqttClientError> { <$t>::unsubscribe(self, c) }
            fn ping(&mut self) { self.$ping() }
            fn disconnect(&mut self) { <$t>::disconnect(self) }
            fn auth(&mut self, rc: u8, p: Vec<Property>) { <$t>::auth(self, rc, p) }
            fn lost(&mut self) { self.handle_connection_lost() }
            fn up(&self) -> bool { self.is_connected() }
            $($extra)*
        }
    };
}
drv!(MqttEngine, send_ping,
    fn schedule(&mut self, t: Instant) -> bool { self.schedule_reconnect(t); true },
    fn reset_transport(&mut self) -> bool { self.reset_for_new_transport(); true });
drv!(NoIoMqttClient, ping);

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ver: u8,
    pub noio: bool,
    pub auto_ack: bool,
    pub auto_keep: bool,
    pub ka: u16,
    pub mult: u32,
    pub rm: u16,
    pub rt: u64,
    pub base: u64,
    pub max: u64,
    pub maxatt: u32,
    pub out_max: usize,
    pub ev_max: usize,
    /// outgoing bytes are taken only by Drain
    pub explicit: bool,
    pub clean: bool,
}
impl Cfg {
    pub fn v(ver: u8) -> Cfg {
        Cfg { ver, noio: false, auto_ack: true, auto_keep: true, ka: 0, mult: 2, rm: 65535, rt: 5000, base: 1000, max: 60000, maxatt: 0, out_max: 1000, ev_max: 1000, explicit: false, clean: false }
    }
    pub fn options(&self) -> MqttClientOptions {
        MqttClientOptions::builder()
            .peer("h:1")
            .client_id("cid")
            .mqtt_version(self.ver)
            .clean_start(self.clean)
            .keep_alive(self.ka)
            .auto_ack(self.auto_ack)
            .receive_maximum(self.rm)
            .retransmission_timeout_ms(self.rt)
            .reconnect_base_delay_ms(self.base)
            .reconnect_max_delay_ms(self.max)
            .max_reconnect_attempts(self.maxatt)
            .ping_timeout_multiplier(self.mult)
            .max_outgoing_packet_count(self.out_max)
            .max_event_count(self.ev_max)
            .auto_keepalive(self.auto_keep)
            .build()
    }
    fn make(&self) -> Box<dyn Drv> {
        let o = self.options();
        if self.noio {
            Box::new(NoIoMqttClient::new(o))
        } else {
            Box::new(MqttEngine::new(o))
        }
    }
}

/// One step of a history.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum O {
    Connect,
    Ok(bool),
    OkRm(bool, u16),
    OkSka(u16),
    Refuse(u8),
    Lost,
    Reset,
    Bye,
    SrvBye,
    Pub(u8, u8),
    PubId(u8, u16),
    Sub,
    Unsub,
    SubId(u16),
    UnsubId(u16),
    BadPub,
    BadSub,
    /// the proper next acknowledgement for the i-th operation on the wire (0 oldest, 9 newest), with reason code
    Ack(u8, u8),
    RecErr,
    /// PUBREC again for the oldest released exchange
    RecAgain,
    /// every acknowledgement type that does not fit, for the oldest operation on the wire
    Wrong(u8),
    /// every acknowledgement type for an identifier that is not in use
    Unknown,
    /// the last completed operation's acknowledgement once more
    Again,
    /// QoS, id, DUP
    In(u8, u16, bool),
    Rel(u16),
    /// two messages in one read
    InPair,
    /// first part of a packet only
    Half,
    Rest,
    More,
    Adv(u64),
    Late(u64),
    Tick,
    Ping,
    Pong,
    Drain,
    Sched,
    Auth,
    /// drive time to the announced deadline
    Next,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    P1,
    P2,
    Sub,
    Unsub,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum St {
    Queued,
    Sent,
    Rel,
}
#[derive(Clone, Debug, Hash)]
struct Op {
    id: u16,
    k: K,
    prio: u8,
    tag: u32,
    st: St,
    /// may or may not have been committed to a transport that is gone
    limbo: bool,
    /// limbo, and the server lost the session: may have been dropped
    ghost: bool,
    order: u32,
    conn: u32,
    at: u64,
    counted: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum C {
    Down,
    Wait,
    Up,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum A {
    Ack,
    Rec,
    Rel,
    Comp,
}

pub type E = (&'static str, String);
type R<T> = Result<T, E>;

fn bad<T>(tags: &'static str, m: impl Into<String>) -> R<T> {
    Err((tags, m.into()))
}

pub struct W {
    cfg: Cfg,
    d: Box<dyn Drv>,
    c: C,
    conn: u32,
    /// CONNECT is owed / was seen / accepted on this transport
    want_connect: bool,
    seen_connect: bool,
    bye_seen: bool,
    want_bye: bool,
    want_auth: u32,
    ops: Vec<Op>,
    q0: Vec<(u8, u32, bool)>, // prio, tag, limbo
    owed: Vec<(A, u16)>,
    /// PUBREL that may (need not) be sent in answer to a PUBREC out of the blue
    may_rel: Vec<u16>,
    resume: bool,
    in2: Vec<u16>,
    counter: u32,
    order: u32,
    limit: usize,
    // time
    ka: u64,
    last_tx: u64,
    last_call: u64,
    ping_at: Option<u64>,
    want_ping: bool,
    auto_ping: bool,
    retr: Vec<u16>,
    attempts: u32,
    reconnect_at: Option<u64>,
    // bytes of the server not yet fed
    rest: Vec<u8>,
    rest_ev: Vec<String>,
    undrained: bool,
    last_done: Option<(u16, K)>,
    /// packets of the server not yet reported: their events, and the answer each owes
    pend: VecDeque<(Vec<String>, Option<(A, u16)>)>,
    now0: Instant,
    pub log: Vec<String>,
    pub tr: Vec<u64>,
}

fn topic(k: u32) -> String {
    format!("t/{}", k % 3)
}
fn payload(k: u32) -> Vec<u8> {
    let mut v = k.to_be_bytes().to_vec();
    v.extend(vec![0xA5; (k % 4) as usize]);
    v
}
fn props(k: u32) -> Vec<Property> {
    match k % 4 {
        1 => vec![Property::UserProperty("k".into(), format!("{}", k))],
        2 => vec![Property::ContentType("c".into()), Property::MessageExpiryInterval(k)],
        _ => vec![],
    }
}
fn ack_props(id: u16) -> Vec<Property> {
    if id % 2 == 0 {
        vec![Property::ReasonString(format!("r{}", id))]
    } else {
        vec![]
    }
}
fn ev(e: &MqttEvent) -> String {
    format!("{:?}", e)
}

impl W {
    pub fn new(cfg: &Cfg) -> W {
        vclock_on();
        W {
            d: cfg.make(),
            c: C::Down,
            conn: 0,
            want_connect: false,
            seen_connect: false,
            bye_seen: false,
            want_bye: false,
            want_auth: 0,
            ops: vec![],
            q0: vec![],
            owed: vec![],
            may_rel: vec![],
            resume: false,
            in2: vec![],
            counter: 0,
            order: 0,
            limit: 65535,
            ka: cfg.ka as u64 * 1000,
            last_tx: 0,
            last_call: 0,
            ping_at: None,
            want_ping: false,
            auto_ping: false,
            retr: vec![],
            attempts: 0,
            reconnect_at: None,
            rest: vec![],
            rest_ev: vec![],
            undrained: false,
            last_done: None,
            pend: VecDeque::new(),
            now0: Instant::now(),
            log: vec![],
            tr: vec![],
            cfg: cfg.clone(),
        }
    }
    fn v5(&self) -> bool {
        self.cfg.ver == 5
    }
    fn counted(&self) -> usize {
        self.ops.iter().filter(|o| o.counted).count()
    }
    fn room(&self) -> bool {
        self.counted() < self.limit
    }
    fn live(&self, id: u16) -> bool {
        self.ops.iter().any(|o| o.id == id && !o.ghost)
    }
    fn instant(&self, ms: u64) -> Instant {
        self.now0 + std::time::Duration::from_millis(ms)
    }
    /// Operations on the wire of this connection, oldest first.
    fn wire(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.ops.len()).filter(|&i| self.ops[i].st != St::Queued && self.ops[i].conn == self.conn).collect();
        v.sort_by_key(|&i| self.ops[i].order);
        v
    }
    fn pick(&self, i: u8) -> Option<usize> {
        let w = self.wire();
        if i == 9 {
            w.last().copied()
        } else {
            w.get(i as usize).copied()
        }
    }

    // ---------------------------------------------------------------- what the client sends
    fn expect_connect(&self) -> P {
        if self.v5() {
            P::Connect5(connectv5::MqttConnect::new("cid".into(), None, None, None, self.cfg.ka, self.cfg.clean, vec![]))
        } else {
            P::Connect3(connectv3::MqttConnect::new("cid".into(), self.cfg.ka, self.cfg.clean))
        }
    }
    fn expect_publish(&self, id: Option<u16>, q: u8, tag: u32, dup: bool) -> P {
        if self.v5() {
            P::Publish5(publishv5::MqttPublish::new_with_prop(q, topic(tag), id, payload(tag), tag % 5 == 1, dup, props(tag)))
        } else {
            P::Publish3(publishv3::MqttPublish::new(topic(tag), q, payload(tag), id, tag % 5 == 1, dup))
        }
    }
    fn expect_sub(&self, o: &Op) -> P {
        let (id, t) = (o.id, topic(o.tag));
        match (o.k, self.v5()) {
            (K::Sub, true) => P::Subscribe5(subscribev5::MqttSubscribe::new(id, vec![subscribev5::TopicSubscription::new_simple(t, 1), subscribev5::TopicSubscription::new_simple("x/#".into(), 2)], vec![Property::SubscriptionIdentifier(7)])),
            (K::Sub, false) => P::Subscribe3(subscribev3::MqttSubscribe::new(id, vec![subscribev3::SubscriptionTopic { topic_filter: t, qos: 1 }, subscribev3::SubscriptionTopic { topic_filter: "x/#".into(), qos: 2 }])),
            (_, true) => P::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(id, vec![t, "y".into()], vec![Property::UserProperty("u".into(), "v".into())])),
            (_, false) => P::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(id, vec![t, "y".into()])),
        }
    }

    /// Takes what the client wants to write and checks every packet.
    fn drain(&mut self) -> R<()> {
        let bytes = self.d.out();
        self.undrained = false;
        let mut b = &bytes[..];
        while !b.is_empty() {
            match want(b, self.cfg.ver) {
                Want::Packet(p, n) => {
                    self.tr.push(hash(&b[..n]));
                    if self.log_on() {
                        self.log.push(format!("    -> {:?}", p));
                    }
                    self.emitted(p)?;
                    b = &b[n..];
                }
                x => return bad("E10 E08 E09 E02 E03 E04 E05 E06", format!("the client wrote bytes that are not whole packets: {:?} at {}", x, hex(b))),
            }
        }
        self.owed_now()
    }
    fn log_on(&self) -> bool {
        self.log.capacity() > 0
    }

    fn emitted(&mut self, p: P) -> R<()> {
        let now = vnow_ms();
        if let P::Connect5(_) | P::Connect3(_) = p {
            if !self.want_connect {
                return bad("E08 E09", "a CONNECT that was not asked for or a second one on the transport");
            }
            if p != self.expect_connect() {
                return bad("E09 E08", format!("CONNECT differs from the configuration: {:?}", p));
            }
            self.want_connect = false;
            self.seen_connect = true;
            self.last_tx = now;
            return Ok(());
        }
        if !self.seen_connect || self.want_connect {
            return bad("E08 E09", format!("a packet before CONNECT on the new transport: {:?}", kind(&p)));
        }
        if self.bye_seen {
            return bad("E08 E10", format!("a packet after DISCONNECT: {}", kind(&p)));
        }
        if self.c == C::Wait && !matches!(p, P::Auth(_)) {
            return bad("E09 E08", format!("sent before the connection was accepted: {}", kind(&p)));
        }
        self.last_tx = now;
        match &p {
            P::Publish5(x) => self.publish_out(x.qos, x.packet_id, x.dup, x.payload.clone(), &p),
            P::Publish3(x) => self.publish_out(x.qos, x.message_id, x.dup, x.payload.clone(), &p),
            P::PubAck5(x) => self.answer(A::Ack, x.packet_id, x.reason_code),
            P::PubAck3(x) => self.answer(A::Ack, x.message_id, 0),
            P::PubRec5(x) => self.answer(A::Rec, x.packet_id, x.reason_code),
            P::PubRec3(x) => self.answer(A::Rec, x.message_id, 0),
            P::PubComp5(x) => self.answer(A::Comp, x.packet_id, x.reason_code),
            P::PubComp3(x) => self.answer(A::Comp, x.message_id, 0),
            P::PubRel5(x) => {
                if x.reason_code != 0 && x.reason_code != 0x92 {
                    return bad("E02", format!("PUBREL {} with reason {:#x} for an exchange the peer accepted", x.packet_id, x.reason_code));
                }
                self.rel_out(x.packet_id)
            }
            P::PubRel3(x) => self.rel_out(x.message_id),
            P::Subscribe5(x) => self.sub_out(x.packet_id, &p),
            P::Subscribe3(x) => self.sub_out(x.message_id, &p),
            P::Unsubscribe5(x) => self.sub_out(x.packet_id, &p),
            P::Unsubscribe3(x) => self.sub_out(x.message_id, &p),
            P::PingReq5(_) | P::PingReq3(_) => {
                if self.auto_ping {
                    self.auto_ping = false;
                } else if self.want_ping {
                    self.want_ping = false;
                } else if self.cfg.explicit && self.cfg.auto_keep && self.ping_at.is_none() {
                    // what was sent last waited in the buffer: the client counts from when it was put there
                    self.ping_at = Some(now);
                } else {
                    return bad("E05", "a PINGREQ that was neither due nor asked for");
                }
                Ok(())
            }
            P::Disconnect5(x) => {
                if !self.want_bye || x.reason_code != 0 {
                    return bad("E08 E09", "a DISCONNECT that was not asked for");
                }
                self.want_bye = false;
                self.bye_seen = true;
                Ok(())
            }
            P::Disconnect3(_) => {
                if !self.want_bye {
                    return bad("E08 E09", "a DISCONNECT that was not asked for");
                }
                self.want_bye = false;
                self.bye_seen = true;
                Ok(())
            }
            P::Auth(_) if self.want_auth > 0 => {
                self.want_auth -= 1;
                Ok(())
            }
            _ => bad("E09 E02", format!("a packet a client never sends: {}", kind(&p))),
        }
    }
    /// Direct answers appear in the order in which they became due, per type.
    fn answer(&mut self, a: A, id: u16, rc: u8) -> R<()> {
        if self.pend.front().is_some_and(|x| x.0.is_empty() && x.1 == Some((a, id))) && !self.owed.contains(&(a, id)) {
            self.pend.pop_front();
            return Ok(());
        }
        let Some(i) = self.owed.iter().position(|x| x.0 == a) else {
            return bad("E04 E10", format!("{:?} {} was not owed", a, id));
        };
        if self.owed[i].1 != id {
            return bad("E04 E10", format!("{:?} {} sent where {} was owed", a, id, self.owed[i].1));
        }
        if rc != 0 {
            return bad("E04", format!("{:?} {} with reason code {}", a, id, rc));
        }
        self.owed.remove(i);
        Ok(())
    }
    fn publish_out(&mut self, q: u8, id: Option<u16>, dup: bool, pl: Vec<u8>, p: &P) -> R<()> {
        let now = vnow_ms();
        if q == 0 {
            let Some(i) = self.q0.iter().position(|x| payload(x.1) == pl) else {
                return bad("E10 E09 E03 E08", "a QoS 0 publish that was not asked for or was sent already");
            };
            let (prio, tag, limbo) = self.q0[i];
            if *p != self.expect_publish(None, 0, tag, false) {
                return bad("E10", format!("a QoS 0 publish was altered: {:?}", p));
            }
            if !limbo && self.q0.iter().any(|x| x.0 == prio && x.1 < tag && !x.2) {
                return bad("E10 E03", "QoS 0 publishes of one priority out of order");
            }
            self.q0.remove(i);
            return Ok(());
        }
        let id = id.unwrap_or(0);
        let Some(i) = self.ops.iter().position(|o| o.id == id && matches!(o.k, K::P1 | K::P2) && payload(o.tag) == pl) else {
            return bad("E06 E02 E08 E10", format!("PUBLISH {} that was not asked for or is finished already", id));
        };
        let o = self.ops[i].clone();
        if *p != self.expect_publish(Some(id), if o.k == K::P1 { 1 } else { 2 }, o.tag, dup) {
            return bad("E10 E06 E08 E02", format!("PUBLISH {} differs from what was asked for: {:?}", id, p));
        }
        match o.st {
            St::Rel => return bad("E06 E02 E08", format!("PUBLISH {} sent again after its PUBREC", id)),
            St::Queued => {
                if dup && !o.limbo {
                    return bad("E06 E08 E10", format!("PUBLISH {} sent for the first time with DUP", id));
                }
                let ahead = |p: u8, tag: u32| if self.cfg.explicit { p == o.prio && tag < o.tag } else { p > o.prio || p == o.prio && tag < o.tag };
                if !o.limbo && (self.ops.iter().any(|x| matches!(x.k, K::P1 | K::P2) && x.st == St::Queued && !x.limbo && ahead(x.prio, x.tag)) || self.q0.iter().any(|x| !x.2 && ahead(x.0, x.1))) {
                    return bad("E03 E10", format!("PUBLISH {} overtook one of higher priority or of its own accepted earlier", id));
                }
                self.order += 1;
                self.ops[i].order = self.order;
            }
            St::Sent if o.conn < self.conn => {
                if !self.resume {
                    return bad("E08 E06", format!("PUBLISH {} of an earlier connection sent without session", id));
                }
                if !dup {
                    return bad("E08", format!("PUBLISH {} sent again without DUP", id));
                }
                if self.ops.iter().any(|x| matches!(x.k, K::P1 | K::P2) && x.st == St::Sent && x.conn < self.conn && x.order < o.order) {
                    return bad("E08", format!("PUBLISH {} resumed out of order", id));
                }
            }
            St::Sent => {
                let Some(k) = self.retr.iter().position(|x| *x == id) else {
                    return bad("E06 E02 E08 E10", format!("PUBLISH {} sent twice", id));
                };
                if !dup {
                    return bad("E06", format!("PUBLISH {} retransmitted without DUP", id));
                }
                self.retr.remove(k);
                self.ops[i].at = now;
                return Ok(());
            }
        }
        if !self.room() {
            return bad("E03 E08", format!("PUBLISH {} exceeds the receive maximum {}", id, self.limit));
        }
        let o = &mut self.ops[i];
        o.st = St::Sent;
        o.conn = self.conn;
        o.at = now;
        o.counted = true;
        o.limbo = false;
        o.ghost = false;
        Ok(())
    }
    fn rel_out(&mut self, id: u16) -> R<()> {
        let now = vnow_ms();
        if let Some(i) = self.owed.iter().position(|x| x.0 == A::Rel) {
            if self.owed[i].1 == id {
                self.owed.remove(i);
                if let Some(o) = self.ops.iter_mut().find(|o| o.id == id && o.st == St::Rel) {
                    o.conn = self.conn;
                }
                return Ok(());
            }
        }
        if let Some(i) = self.may_rel.iter().position(|x| *x == id) {
            self.may_rel.remove(i);
            return Ok(());
        }
        let Some(i) = self.ops.iter().position(|o| o.id == id && o.st == St::Rel) else {
            return bad("E02 E06 E08", format!("PUBREL {} for no released exchange", id));
        };
        let o = self.ops[i].clone();
        if o.conn < self.conn {
            if !self.resume {
                return bad("E08", format!("PUBREL {} of an earlier connection sent without session", id));
            }
            if self.ops.iter().any(|x| x.st == St::Rel && x.conn < self.conn && x.order < o.order) {
                return bad("E08", format!("PUBREL {} resumed out of order", id));
            }
        } else if let Some(k) = self.retr.iter().position(|x| *x == id) {
            self.retr.remove(k);
        } else {
            return bad("E02 E06 E08", format!("PUBREL {} sent twice", id));
        }
        self.ops[i].conn = self.conn;
        self.ops[i].at = now;
        Ok(())
    }
    fn sub_out(&mut self, id: u16, p: &P) -> R<()> {
        let Some(i) = self.ops.iter().position(|o| o.id == id && matches!(o.k, K::Sub | K::Unsub)) else {
            return bad("E02 E10 E09 E08", format!("{} {} that was not asked for or is finished", kind(p), id));
        };
        let o = self.ops[i].clone();
        if *p != self.expect_sub(&o) {
            return bad("E02 E10", format!("{} {} differs from what was asked for: {:?}", kind(p), id, p));
        }
        match o.st {
            St::Queued => {
                if !o.limbo && self.ops.iter().any(|x| matches!(x.k, K::Sub | K::Unsub) && x.st == St::Queued && !x.limbo && x.tag < o.tag) {
                    return bad("E10 E09", "SUBSCRIBE and UNSUBSCRIBE out of order");
                }
                self.order += 1;
                self.ops[i].order = self.order;
            }
            _ if o.conn < self.conn && self.resume => {}
            _ if self.retr.contains(&id) => self.retr.retain(|x| *x != id),
            _ => return bad("E02 E10 E08", format!("{} {} sent twice", kind(p), id)),
        }
        let now = vnow_ms();
        let o = &mut self.ops[i];
        o.st = St::Sent;
        o.conn = self.conn;
        o.at = now;
        o.limbo = false;
        o.ghost = false;
        Ok(())
    }
    /// After everything was taken, nothing that is owed may be missing.
    fn owed_now(&mut self) -> R<()> {
        if self.want_connect {
            return bad("E08 E09", "connect() wrote no CONNECT");
        }
        if let Some(x) = self.owed.first() {
            return match x.0 {
                A::Rel => bad("E02 E10", format!("PUBREL {} was not sent in answer to its PUBREC", x.1)),
                _ => bad("E04 E10", format!("{:?} {} was owed and not sent", x.0, x.1)),
            };
        }
        if self.want_bye {
            return bad("E10 E09", "disconnect() wrote no DISCONNECT");
        }
        if self.want_auth > 0 {
            return bad("E09 E10", "auth() wrote no AUTH");
        }
        if self.want_ping || self.auto_ping {
            return bad("E05", "a PINGREQ was due and not sent");
        }
        for id in std::mem::take(&mut self.retr) {
            if let Some(o) = self.ops.iter().find(|o| o.id == id) {
                if matches!(o.k, K::P1 | K::P2) {
                    return bad("E06", format!("{} {} was due for retransmission and not sent", if o.st == St::Rel { "PUBREL" } else { "PUBLISH" }, id));
                }
            }
        }
        if self.c != C::Up {
            return Ok(());
        }
        let old = |o: &Op| o.st != St::Queued && o.conn < self.conn;
        if let Some(o) = self.ops.iter().find(|o| old(o) && (o.st == St::Rel || matches!(o.k, K::Sub | K::Unsub))) {
            return bad("E08 E02", format!("{:?} {} of the resumed session was not sent again", o.st, o.id));
        }
        if self.room() {
            if let Some(o) = self.ops.iter().find(|o| old(o)) {
                return bad("E08", format!("PUBLISH {} of the resumed session was not sent again", o.id));
            }
            if let Some(o) = self.ops.iter().find(|o| o.st == St::Queued && matches!(o.k, K::P1 | K::P2) && !o.ghost) {
                return bad("E03 E09 E10 E08 E02", format!("PUBLISH {} was not sent although there is room", o.id));
            }
            if self.q0.iter().any(|x| !x.2) {
                return bad("E03 E09 E10", "a QoS 0 publish was not sent although there is room");
            }
        }
        if let Some(o) = self.ops.iter().find(|o| o.st == St::Queued && matches!(o.k, K::Sub | K::Unsub) && !o.ghost) {
            return bad("E09 E10 E03 E02", format!("{:?} {} was not sent", o.k, o.id));
        }
        Ok(())
    }

    // ---------------------------------------------------------------- connection events
    fn gone(&mut self) {
        // answers that were not written are void; the server repeats its packets
        if self.undrained {
            for o in &mut self.ops {
                if o.st == St::Queued {
                    o.limbo = true;
                }
            }
            for x in &mut self.q0 {
                x.2 = true;
            }
        }
        self.c = C::Down;
        self.ping_at = None;
        self.retr.clear();
    }
    fn new_transport(&mut self) {
        self.gone();
        self.conn += 1;
        self.want_connect = true;
        self.seen_connect = false;
        self.bye_seen = false;
        self.want_bye = false;
        self.want_auth = 0;
        self.want_ping = false;
        self.auto_ping = false;
        self.owed.clear();
        self.may_rel.clear();
        self.rest.clear();
        self.rest_ev.clear();
        self.pend.clear();
        self.resume = false;
        self.reconnect_at = None;
        for o in &mut self.ops {
            o.counted = false;
        }
        self.c = C::Wait;
    }
    fn accepted(&mut self, sp: bool, rm: Option<u16>, ska: Option<u16>) {
        self.c = C::Up;
        self.attempts = 0;
        self.reconnect_at = None;
        self.limit = match rm {
            Some(n) if self.v5() => n as usize,
            _ if self.cfg.rm == 0 => 65535,
            _ => self.cfg.rm as usize,
        };
        self.ka = ska.filter(|_| self.v5()).unwrap_or(self.cfg.ka) as u64 * 1000;
        self.resume = sp;
        if !sp {
            self.in2.clear();
            self.ops.retain(|o| o.st == St::Queued);
            for o in &mut self.ops {
                o.ghost = o.limbo;
            }
            self.last_done = None;
        }
    }
    fn loss_scheduled(&mut self, exp: &mut Vec<String>) {
        let now = vnow_ms();
        if self.cfg.maxatt > 0 && self.attempts >= self.cfg.maxatt {
            self.reconnect_at = None;
            return;
        }
        let mut d = self.cfg.base as u128;
        for _ in 0..self.attempts {
            d = (d * 2).min(1 << 100);
        }
        let d = d.min(self.cfg.max as u128) as u64;
        self.reconnect_at = Some(now + d);
        self.attempts += 1;
        exp.push(ev(&MqttEvent::ReconnectScheduled { attempt: self.attempts, delay: std::time::Duration::from_millis(d) }));
    }

    // ---------------------------------------------------------------- events
    fn events(&mut self, got: Vec<MqttEvent>, exp: Vec<String>) -> R<()> {
        let got: Vec<String> = got.iter().map(ev).collect();
        for g in &got {
            self.tr.push(hash(g));
            if self.log_on() {
                self.log.push(format!("    => {}", g));
            }
        }
        if got == exp {
            return Ok(());
        }
        // the property concerned: that of the first event that differs
        let i = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
        let (g, x) = (got.get(i), exp.get(i));
        let tag = |s: &str| {
            if s.starts_with("Published") || s.starts_with("Subscribed") || s.starts_with("Unsub") {
                "E02 E08 E06 E10"
            } else if s.starts_with("PublishReceived") || s.starts_with("MessageReceived") || s.starts_with("PubRel") {
                "E04 E10 E08"
            } else if s.starts_with("ReconnectNeeded") || s.starts_with("ReconnectSch") {
                if s.starts_with("ReconnectN") { "E05 E07" } else { "E07" }
            } else if s.starts_with("Ping") {
                "E05"
            } else if s.starts_with("Connected") || s.starts_with("Disc") {
                "E09 E08 E07"
            } else {
                "E02 E04 E08 E09 E10"
            }
        };
        let t = match (x, g) {
            (Some(x), _) => tag(x),
            (_, Some(g)) => tag(g),
            _ => "",
        };
        bad(t, format!("events differ: got {:?}, expected {:?}", g.map(|s| short(s)), x.map(|s| short(s))))
    }

    // ---------------------------------------------------------------- server packets
    /// The server sends packets: the events and the answer that each calls for.
    fn feed(&mut self, ps: Vec<(P, Vec<String>, Option<(A, u16)>)>) -> R<()> {
        let mut b = vec![];
        for (p, e, o) in ps {
            b.extend(refenc(&p));
            self.pend.push_back((e, o));
        }
        self.read(&b)
    }
    fn feed1(&mut self, p: P, e: Vec<String>) -> R<()> {
        self.feed(vec![(p, e, None)])
    }
    /// One read: it reports everything that is pending, or some of it when the event limit is low.
    fn read(&mut self, b: &[u8]) -> R<()> {
        self.undrained = true;
        let got = self.d.incoming(b);
        let n = got.len();
        let mut exp = vec![];
        let low = self.cfg.ev_max < 100;
        while let Some((e, o)) = self.pend.front().cloned() {
            // a packet without events may wait together with what follows it
            if low && (exp.len() >= n && !e.is_empty() || exp.len() >= self.cfg.ev_max) {
                break;
            }
            exp.extend(e);
            self.owed.extend(o);
            self.pend.pop_front();
        }
        if low && n == 0 && self.pend.iter().any(|x| !x.0.is_empty()) {
            return bad("E10", "reading again delivered none of the events that are due");
        }
        self.events(got, exp)
    }
    pub fn s_ack(&self, a: A, id: u16, rc: u8) -> P {
        let pr = ack_props(id);
        match (a, self.v5()) {
            (A::Ack, true) => P::PubAck5(pubackv5::MqttPubAck::new(id, rc, pr)),
            (A::Ack, _) => P::PubAck3(pubackv3::MqttPubAck::new(id)),
            (A::Rec, true) => P::PubRec5(pubrecv5::MqttPubRec::new(id, rc, pr)),
            (A::Rec, _) => P::PubRec3(pubrecv3::MqttPubRec::new(id)),
            (A::Rel, true) => P::PubRel5(pubrelv5::MqttPubRel::new(id, rc, pr)),
            (A::Rel, _) => P::PubRel3(pubrelv3::MqttPubRel::new(id)),
            (A::Comp, true) => P::PubComp5(pubcompv5::MqttPubComp::new(id, rc, pr)),
            (A::Comp, _) => P::PubComp3(pubcompv3::MqttPubComp::new(id)),
        }
    }
    pub fn s_sub(&self, id: u16, rc: u8) -> (P, MqttEvent) {
        let rc = match rc {
            _ if self.v5() => rc,
            0..=0x7f => rc % 3,
            _ => 0x80,
        };
        let rcs = vec![rc, 2];
        let pr = ack_props(id);
        if self.v5() {
            (P::SubAck5(subackv5::MqttSubAck::new(id, rcs.clone(), pr.clone())), MqttEvent::Subscribed(SubscribeResult { packet_id: id, reason_codes: rcs, properties: pr }))
        } else {
            (P::SubAck3(subackv3::MqttSubAck::new(id, rcs.clone())), MqttEvent::Subscribed(SubscribeResult { packet_id: id, reason_codes: rcs, properties: vec![] }))
        }
    }
    fn s_unsub(&self, id: u16, rc: u8) -> (P, MqttEvent) {
        let rcs = vec![rc, 0x11];
        let pr = ack_props(id);
        if self.v5() {
            (P::UnsubAck5(unsubackv5::MqttUnsubAck::new(id, rcs.clone(), pr.clone())), MqttEvent::Unsubscribed(UnsubscribeResult { packet_id: id, reason_codes: rcs, properties: pr }))
        } else {
            (P::UnsubAck3(unsubackv3::MqttUnsubAck::new(id)), MqttEvent::Unsubscribed(UnsubscribeResult { packet_id: id, reason_codes: vec![], properties: vec![] }))
        }
    }
    fn published(&self, id: u16, q: u8, rc: u8) -> String {
        ev(&MqttEvent::Published(PublishResult { packet_id: Some(id), reason_code: Some(if self.v5() { rc } else { 0 }), properties: if self.v5() { Some(ack_props(id)) } else { None }, qos: q }))
    }
    fn done(&mut self, i: usize) {
        let o = self.ops.remove(i);
        self.last_done = Some((o.id, o.k));
        self.retr.retain(|x| *x != o.id);
    }
    fn ack(&mut self, i: usize, rc: u8) -> R<()> {
        let o = self.ops[i].clone();
        match (o.k, o.st) {
            (K::P1, _) => {
                let e = self.published(o.id, 1, rc);
                self.done(i);
                self.feed1(self.s_ack(A::Ack, o.id, rc), vec![e])
            }
            (K::P2, St::Sent) => {
                if rc >= 0x80 && self.v5() {
                    let e = self.published(o.id, 2, rc);
                    self.done(i);
                    return self.feed1(self.s_ack(A::Rec, o.id, rc), vec![e]);
                }
                self.order += 1;
                let m = &mut self.ops[i];
                m.st = St::Rel;
                m.order = self.order;
                m.at = vnow_ms();
                self.feed(vec![(self.s_ack(A::Rec, o.id, rc), vec![], Some((A::Rel, o.id)))])
            }
            (K::P2, _) => {
                let e = self.published(o.id, 2, rc);
                self.done(i);
                self.feed1(self.s_ack(A::Comp, o.id, rc), vec![e])
            }
            (K::Sub, _) => {
                self.done(i);
                let (p, e) = self.s_sub(o.id, rc);
                self.feed1(p, vec![ev(&e)])
            }
            (K::Unsub, _) => {
                self.done(i);
                let (p, e) = self.s_unsub(o.id, rc);
                self.feed1(p, vec![ev(&e)])
            }
        }
    }
    /// An incoming message: its packet, the events it must produce and the answer it is owed.
    fn message(&mut self, q: u8, id: u16, dup: bool) -> (P, Vec<String>, Option<(A, u16)>) {
        self.counter += 1;
        let tag = 1_000_000 + self.counter;
        let pid = if q > 0 { Some(id) } else { None };
        let retain = tag % 2 == 0;
        let p = if self.v5() { P::Publish5(publishv5::MqttPublish::new_with_prop(q, topic(tag), pid, payload(tag), retain, dup, props(tag))) } else { P::Publish3(publishv3::MqttPublish::new(topic(tag), q, payload(tag), pid, retain, dup)) };
        let m = publishv5::MqttPublish::new_with_prop(q, topic(tag), pid, payload(tag), retain, dup, if self.v5() { props(tag) } else { vec![] });
        let mut e = vec![];
        if q < 2 || !self.cfg.auto_ack || !self.in2.contains(&id) {
            e.push(ev(&MqttEvent::PublishReceived { packet_id: pid, stream: None }));
            e.push(ev(&MqttEvent::MessageReceived(m)));
        }
        if q == 2 && self.cfg.auto_ack && !self.in2.contains(&id) {
            self.in2.push(id);
        }
        let o = if self.cfg.auto_ack && q > 0 { Some((if q == 1 { A::Ack } else { A::Rec }, id)) } else { None };
        (p, e, o)
    }

    // ---------------------------------------------------------------- application calls
    fn accept(&mut self, k: K, prio: u8, chosen: Option<u16>, got: Result<u16, MqttClientError>, tag: u32) -> R<()> {
        match got {
            Err(e) => {
                let used = chosen.is_some_and(|c| c == 0 || self.live(c));
                let full = matches!(e, MqttClientError::BufferFull { .. });
                if self.log_on() {
                    self.log.push(format!("    refused: {:?}", e));
                }
                if full && (self.cfg.out_max < 100 && (self.undrained || self.c != C::Up)) || used {
                    return Ok(());
                }
                if matches!(e, MqttClientError::ProtocolViolation { .. }) && self.conn == 0 {
                    return Ok(()); // nothing can be accepted before the first connect()
                }
                if full && self.live_queue() >= 1000 {
                    return Ok(());
                }
                bad("E10 E01 E09", format!("{:?} was refused without cause: {:?}", k, e))
            }
            Ok(id) => {
                if id == 0 {
                    return bad("E01", "identifier 0 was assigned");
                }
                if self.live(id) {
                    return bad("E01", format!("identifier {} was given to {:?} while in use", id, k));
                }
                if chosen.is_some_and(|c| c != id) {
                    return bad("E01", format!("identifier {} was used instead of the chosen one", id));
                }
                self.ops.retain(|o| o.id != id);
                self.ops.push(Op { id, k, prio, tag, st: St::Queued, limbo: false, ghost: false, order: 0, conn: self.conn, at: 0, counted: false });
                if self.last_done.is_some_and(|d| d.0 == id) {
                    self.last_done = None;
                }
                Ok(())
            }
        }
    }
    fn live_queue(&self) -> usize {
        self.ops.iter().filter(|o| o.st == St::Queued).count() + self.q0.len()
    }
    fn publish(&mut self, q: u8, prio: u8, chosen: Option<u16>) -> R<()> {
        self.counter += 1;
        let tag = self.counter;
        let c = PublishCommand::new(topic(tag), payload(tag), q, tag % 5 == 1, false, chosen, if self.v5() { props(tag) } else { vec![] }, prio);
        let r = self.d.publish(c);
        self.undrained = true;
        self.last_call = vnow_ms();
        if q == 0 {
            return match r {
                Ok(None) => {
                    self.q0.push((prio, tag, false));
                    Ok(())
                }
                Ok(x) => bad("E01 E10", format!("a QoS 0 publish returned identifier {:?}", x)),
                Err(e) if self.cfg.out_max < 100 && matches!(e, MqttClientError::BufferFull { .. }) => Ok(()),
                Err(e) => bad("E10", format!("a QoS 0 publish was refused: {:?}", e)),
            };
        }
        let r = r.map(|x| x.unwrap_or(0));
        self.accept(if q == 1 { K::P1 } else { K::P2 }, prio, chosen, r, tag)
    }
    fn subscribe(&mut self, k: K, chosen: Option<u16>) -> R<()> {
        self.counter += 1;
        let tag = self.counter;
        let t = topic(tag);
        let r = if k == K::Sub {
            let pr = if self.v5() { vec![Property::SubscriptionIdentifier(7)] } else { vec![] };
            self.d.subscribe(SubscribeCommand::new(chosen, vec![subscribev5::TopicSubscription::new_simple(t, 1), subscribev5::TopicSubscription::new_simple("x/#".into(), 2)], pr))
        } else {
            let pr = if self.v5() { vec![Property::UserProperty("u".into(), "v".into())] } else { vec![] };
            self.d.unsubscribe(UnsubscribeCommand::new(chosen, vec![t, "y".into()], pr))
        };
        let was = self.undrained;
        let r = self.accept(k, 0, chosen, r, tag);
        self.undrained = true;
        let _ = was;
        r
    }

    // ---------------------------------------------------------------- time
    /// The earliest time at which the client has something to do.
    fn need(&self) -> Option<(u64, &'static str)> {
        let mut v = vec![];
        if self.c == C::Up {
            if self.ka > 0 {
                match self.ping_at {
                    Some(p) => v.push((p + self.ka * self.cfg.mult as u64, "E05")),
                    None if self.cfg.auto_keep => v.push((self.last_tx + self.ka, "E05")),
                    None => {}
                }
            }
            if !self.v5() {
                for o in &self.ops {
                    if o.st != St::Queued && o.conn == self.conn && matches!(o.k, K::P1 | K::P2) {
                        v.push((o.at + self.cfg.rt, "E06"));
                    }
                }
            }
        } else if let Some(t) = self.reconnect_at {
            v.push((t, "E07"));
        }
        v.into_iter().min()
    }
    fn announced(&self) -> Option<u64> {
        self.d.next().map(|t| t.saturating_duration_since(self.now0).as_millis() as u64)
    }
    fn check_next(&self) -> R<()> {
        if let Some((t, tag)) = self.need() {
            match self.announced() {
                Some(n) if n <= t => {}
                n => return Err((if tag == "E05" { "E05" } else if tag == "E06" { "E06 E05" } else { "E07 E05" }, format!("next deadline {:?} ms announced, but something is due at {} ms", n, t))),
            }
        }
        Ok(())
    }
    fn tick(&mut self) -> R<()> {
        let now = vnow_ms();
        let mut exp = vec![];
        let mut lost = false;
        match self.c {
            C::Up => {
                if self.ka > 0 && self.ping_at.is_some_and(|p| now - p >= self.ka * self.cfg.mult as u64) {
                    exp.push(ev(&MqttEvent::ReconnectNeeded));
                    lost = true;
                } else {
                    if self.ka > 0 && self.cfg.auto_keep && self.ping_at.is_none() && now - self.last_tx.max(if self.cfg.explicit { self.last_call } else { 0 }) >= self.ka {
                        self.auto_ping = true;
                        self.ping_at = Some(now);
                    }
                    if !self.v5() {
                        self.retr = self.ops.iter().filter(|o| o.st != St::Queued && o.conn == self.conn && now - o.at >= self.cfg.rt).map(|o| o.id).collect();
                    }
                }
            }
            _ => {
                if self.reconnect_at.is_some_and(|t| now >= t) {
                    exp.push(ev(&MqttEvent::ReconnectNeeded));
                    self.reconnect_at = None;
                }
            }
        }
        if lost {
            self.gone();
            self.loss_scheduled(&mut exp);
        }
        let t = self.instant(now);
        let got = self.d.tick(t);
        self.events(got, exp)?;
        self.drain()?;
        // driving at the deadline must move the deadline
        if let Some(n) = self.announced() {
            if n <= now {
                return bad("E05 E06 E07", format!("after driving at {} ms the next deadline is {} ms: the driver would spin", now, n));
            }
        }
        self.check_next()
    }
    fn advance(&mut self, ms: u64) -> R<()> {
        let end = vnow_ms() + ms;
        let mut n = 0;
        while let Some(t) = self.announced() {
            if t > end {
                break;
            }
            if t > vnow_ms() {
                vadvance_ms(t - vnow_ms());
            }
            self.tick()?;
            n += 1;
            if n > 200 {
                return bad("E05 E06 E07", "the announced deadlines do not advance");
            }
        }
        vadvance_ms(end - vnow_ms());
        Ok(())
    }

    // ---------------------------------------------------------------- one step
    /// false: the step does not apply in this state
    pub fn step(&mut self, o: O) -> R<bool> {
        use O::*;
        let up = self.c == C::Up;
        if self.log_on() {
            self.log.push(format!("  {:?} at {} ms", o, vnow_ms()));
        }
        let idle = |e: Vec<MqttEvent>, w: &mut W| w.events(e, vec![]);
        // the server's bytes come in order: nothing between the parts of one packet
        let server = matches!(o, SrvBye | Ack(..) | RecErr | RecAgain | Wrong(_) | Unknown | Again | In(..) | Rel(_) | InPair | Pong);
        if server && !self.rest.is_empty() {
            return Result::Ok(false);
        }
        match o {
            Connect => {
                if self.c != C::Down {
                    return Result::Ok(false);
                }
                self.new_transport();
                self.undrained = true;
                self.d.connect();
            }
            Ok(_) | OkRm(..) | OkSka(_) | Refuse(_) => {
                if self.c != C::Wait || !self.seen_connect {
                    return Result::Ok(false);
                }
                let (sp, rc, rm, ska) = match o {
                    Ok(sp) => (sp, 0, None, None),
                    OkRm(sp, n) => (sp, 0, Some(n), None),
                    OkSka(n) => (false, 0, None, Some(n)),
                    Refuse(rc) => (false, if self.v5() { rc } else { 1 + rc % 5 }, None, None),
                    _ => unreachable!(),
                };
                let (p, pr) = if self.v5() {
                    let mut pr = vec![];
                    if let Some(n) = rm {
                        pr.push(Property::ReceiveMaximum(n));
                    }
                    if let Some(n) = ska {
                        pr.push(Property::ServerKeepAlive(n));
                    }
                    pr.push(Property::ReasonString("x".into()));
                    (P::ConnAck5(connackv5::MqttConnAck::new(sp, rc, Some(pr.clone()))), Some(pr))
                } else {
                    (P::ConnAck3(connackv3::MqttConnAck::new(sp, rc)), None)
                };
                if rc == 0 {
                    self.accepted(sp, rm, ska);
                } else {
                    self.c = C::Down;
                    self.want_auth = 0;
                }
                let e = ev(&MqttEvent::Connected(ConnectionResult { reason_code: rc, session_present: sp, properties: pr }));
                self.feed1(p, vec![e])?;
            }
            Lost => {
                if self.conn == 0 || (self.c == C::Down && !self.cfg.explicit) {
                    return Result::Ok(false);
                }
                self.gone();
                self.d.lost();
            }
            Reset => {
                if self.conn == 0 || self.cfg.noio {
                    return Result::Ok(false);
                }
                self.gone();
                self.d.reset_transport();
                self.reconnect_at = None;
                self.owed.clear();
                self.want_bye = false;
                self.want_connect = false;
                self.want_auth = 0;
                self.want_ping = false;
                self.seen_connect = false;
                self.rest.clear();
            }
            Bye => {
                if !up {
                    return Result::Ok(false);
                }
                self.undrained = true;
                self.want_bye = true;
                self.d.disconnect();
                // nothing may be added after it; what is queued stays queued
                self.c = C::Down;
                self.ping_at = None;
            }
            SrvBye => {
                if !up || !self.v5() {
                    return Result::Ok(false);
                }
                self.c = C::Down;
                self.ping_at = None;
                let p = P::Disconnect5(disconnectv5::MqttDisconnect::new(0x8b, vec![]));
                self.feed1(p, vec![ev(&MqttEvent::Disconnected(Some(0x8b)))])?;
            }
            Pub(q, prio) => self.publish(q, prio, None)?,
            PubId(q, id) => self.publish(q, 0, Some(id))?,
            Sub => self.subscribe(K::Sub, None)?,
            Unsub => self.subscribe(K::Unsub, None)?,
            SubId(id) => self.subscribe(K::Sub, Some(id))?,
            UnsubId(id) => self.subscribe(K::Unsub, Some(id))?,
            BadPub => {
                // cannot be encoded: must be refused and leave nothing behind
                let c = PublishCommand::new("x".repeat(70_000), vec![], 1, false, false, None, vec![], 0);
                if self.d.publish(c).is_ok() {
                    return bad("E10 E02", "a publish with an over-long topic was accepted");
                }
            }
            BadSub => {
                let r = self.d.subscribe(SubscribeCommand::new(None, vec![subscribev5::TopicSubscription::new_simple("x".repeat(70_000), 1)], vec![]));
                if r.is_ok() {
                    return bad("E10 E02", "a subscribe with an over-long filter was accepted");
                }
            }
            Ack(i, rc) => {
                if !up {
                    return Result::Ok(false);
                }
                let Some(i) = self.pick(i) else { return Result::Ok(false) };
                self.ack(i, rc)?;
            }
            RecErr => {
                if !up || !self.v5() {
                    return Result::Ok(false);
                }
                let Some(i) = self.wire().into_iter().find(|&i| self.ops[i].k == K::P2 && self.ops[i].st == St::Sent) else { return Result::Ok(false) };
                self.ack(i, 0x97)?;
            }
            RecAgain => {
                if !up {
                    return Result::Ok(false);
                }
                let Some(i) = self.wire().into_iter().find(|&i| self.ops[i].st == St::Rel) else { return Result::Ok(false) };
                let id = self.ops[i].id;
                self.feed(vec![(self.s_ack(A::Rec, id, 0), vec![], Some((A::Rel, id)))])?;
            }
            Wrong(i) => {
                if !up {
                    return Result::Ok(false);
                }
                let Some(i) = self.pick(i) else { return Result::Ok(false) };
                let (id, k, st) = (self.ops[i].id, self.ops[i].k, self.ops[i].st);
                let mut ps = vec![];
                if k != K::P1 {
                    ps.push(self.s_ack(A::Ack, id, 0));
                }
                if k != K::P2 {
                    ps.push(self.s_ack(A::Rec, id, 0));
                }
                if st != St::Rel {
                    ps.push(self.s_ack(A::Comp, id, 0));
                }
                if k != K::Sub {
                    ps.push(self.s_sub(id, 0).0);
                }
                if k != K::Unsub {
                    ps.push(self.s_unsub(id, 0).0);
                }
                self.feed(ps.into_iter().map(|p| (p, vec![], None)).collect())?;
            }
            Unknown | Again => {
                if !up {
                    return Result::Ok(false);
                }
                let id = if o == Unknown {
                    let Some(id) = [9u16, 10, 11, 12, 1].into_iter().find(|i| !self.ops.iter().any(|o| o.id == *i)) else { return Result::Ok(false) };
                    id
                } else {
                    match self.last_done {
                        Some((id, _)) if !self.ops.iter().any(|o| o.id == id) => id,
                        _ => return Result::Ok(false),
                    }
                };
                let mut ps = vec![self.s_ack(A::Ack, id, 0), self.s_ack(A::Rec, id, 0), self.s_ack(A::Comp, id, 0), self.s_sub(id, 0).0, self.s_unsub(id, 0).0];
                self.may_rel = vec![id];
                if o == Again {
                    // only the type that completed it
                    let k = self.last_done.unwrap().1;
                    ps = match k {
                        K::P1 => vec![ps.remove(0)],
                        K::P2 => vec![ps[1].clone(), ps[2].clone()],
                        K::Sub => vec![ps.remove(3)],
                        K::Unsub => vec![ps.remove(4)],
                    };
                }
                self.feed(ps.into_iter().map(|p| (p, vec![], None)).collect())?;
            }
            In(q, id, dup) => {
                if !up || (dup && !self.in2.contains(&id) && q == 2) {
                    return Result::Ok(false);
                }
                let m = self.message(q, id, dup);
                self.feed(vec![m])?;
            }
            Rel(id) => {
                if !up {
                    return Result::Ok(false);
                }
                self.in2.retain(|x| *x != id);
                let o = if self.cfg.auto_ack { Some((A::Comp, id)) } else { None };
                let e = ev(&MqttEvent::PubRelReceived { packet_id: id, stream: None });
                self.feed(vec![(self.s_ack(A::Rel, id, 0), vec![e], o)])?;
            }
            InPair => {
                if !up {
                    return Result::Ok(false);
                }
                let ms = vec![self.message(1, 31, false), self.message(0, 0, false), self.message(2, 32, false)];
                self.feed(ms)?;
            }
            Half => {
                if !up || !self.rest.is_empty() {
                    return Result::Ok(false);
                }
                let (p, e, _) = self.message(1, 33, false);
                let b = refenc(&p);
                self.rest = b[b.len() / 2..].to_vec();
                self.rest_ev = e;
                self.read(&b[..b.len() / 2])?;
            }
            Rest => {
                if !up || self.rest.is_empty() {
                    return Result::Ok(false);
                }
                let (b, e) = (std::mem::take(&mut self.rest), std::mem::take(&mut self.rest_ev));
                self.pend.push_back((e, if self.cfg.auto_ack { Some((A::Ack, 33)) } else { None }));
                self.read(&b)?;
            }
            More => {
                if self.pend.is_empty() {
                    return Result::Ok(false);
                }
                self.read(&[])?;
            }
            Adv(ms) => {
                self.advance(ms)?;
                return Result::Ok(true);
            }
            Late(ms) => {
                vadvance_ms(ms);
                self.tick()?;
                return Result::Ok(true);
            }
            Tick => {
                self.tick()?;
                return Result::Ok(true);
            }
            Next => {
                let Some(t) = self.announced() else { return Result::Ok(false) };
                if t > vnow_ms() {
                    vadvance_ms(t - vnow_ms());
                }
                self.tick()?;
                return Result::Ok(true);
            }
            Ping => {
                if !up && self.c == C::Wait {
                    return Result::Ok(false);
                }
                self.undrained = true;
                if up && self.cfg.out_max >= 100 {
                    self.want_ping = true;
                    self.ping_at.get_or_insert(vnow_ms());
                }
                self.d.ping();
            }
            Pong => {
                if !up {
                    return Result::Ok(false);
                }
                self.ping_at = None;
                let p = if self.v5() { P::PingResp5(pingrespv5::MqttPingResp::new()) } else { P::PingResp3(pingrespv3::MqttPingResp::new()) };
                self.feed1(p, vec![ev(&MqttEvent::PingResponse(PingResult { success: true }))])?;
            }
            Drain => {
                if !self.undrained {
                    return Result::Ok(false);
                }
                self.drain()?;
                return Result::Ok(true);
            }
            Sched => {
                if self.c == C::Up || self.cfg.noio {
                    return Result::Ok(false);
                }
                let mut exp = vec![];
                self.c = C::Down;
                self.loss_scheduled(&mut exp);
                let t = Instant::now();
                self.d.schedule(t);
                let got = self.d.events();
                self.events(got, exp)?;
            }
            Auth => {
                if !self.v5() || self.c == C::Down {
                    return Result::Ok(false);
                }
                self.want_auth += 1;
                self.d.auth(0x18, vec![Property::AuthenticationMethod("m".into())]);
            }
        }
        // no events may appear out of nowhere
        if !matches!(o, Connect) && self.cfg.ev_max >= 100 {
            let got = self.d.events();
            idle(got, self)?;
        }
        if self.d.up() != (self.c == C::Up) && self.pend.is_empty() {
            return bad("E09 E08 E05", format!("is_connected() is {} in state {:?}", self.d.up(), self.c));
        }
        if !self.cfg.explicit {
            self.drain()?;
            self.check_next()?;
        }
        Result::Ok(true)
    }
    /// Whatever happened, once everything is taken and answered nothing is left over.
    pub fn settle(&mut self) -> R<()> {
        if self.c == C::Up {
            self.step(O::Rest)?;
        }
        while !self.pend.is_empty() {
            self.read(&[])?;
        }
        self.drain()?;
        if self.c != C::Up {
            return Ok(());
        }
        for _ in 0..60 {
            let w = self.wire();
            let Some(&i) = w.first() else { break };
            self.ack(i, 0)?;
            while !self.pend.is_empty() {
                self.read(&[])?;
            }
            self.drain()?;
        }
        if let Some(o) = self.ops.iter().find(|o| !o.ghost) {
            return bad("E02 E03 E08 E10", format!("{:?} {} is left unfinished after everything was acknowledged", o.k, o.id));
        }
        Ok(())
    }
    /// Hash of the monitor's state.
    pub fn digest(&self) -> u64 {
        let now = vnow_ms();
        let ops: Vec<_> = self.ops.iter().map(|o| (o.id, o.k, o.prio, o.st, o.limbo, o.ghost, o.counted, self.conn - o.conn, now - o.at.min(now))).collect();
        hash(&(self.c, ops, &self.q0.iter().map(|x| x.0).collect::<Vec<_>>(), &self.in2, &self.owed, (self.limit, self.ka, self.attempts), (self.ping_at.map(|p| now - p), self.reconnect_at.map(|t| t as i64 - now as i64), now - self.last_tx.min(now)), self.rest.len()))
    }
}

fn kind(p: &P) -> String {
    format!("{:?}", p.packet_type())
}
fn short(s: &str) -> String {
    s.chars().take(150).collect()
}

// ==================================================================== exploration
pub struct Suite {
    pub name: &'static str,
    pub cfgs: Vec<Cfg>,
    pub prefix: Vec<O>,
    pub alpha: Vec<O>,
    pub depth: usize,
    pub settle: bool,
}

/// Runs one history.  Ok(None): complete; Ok(Some(i)): step i does not apply; Err((i, e)): violation at step i.
pub fn run_history(s: &Suite, cfg: &Cfg, h: &[u8], l: &mut Local, log: Option<&mut Vec<String>>) -> Result<Option<usize>, (usize, E)> {
    let mut w = W::new(cfg);
    if log.is_some() {
        w.log = Vec::with_capacity(64);
    }
    let r = (|| {
        for &o in &s.prefix {
            match w.step(o) {
                Ok(true) => {}
                Ok(false) if o == O::Drain => {}
                Ok(false) => panic!("harness: prefix of suite {} does not apply", s.name),
                Err(e) => return Err((0, e)),
            }
        }
        for (i, &x) in h.iter().enumerate() {
            l.steps += 1;
            match w.step(s.alpha[x as usize]) {
                Ok(true) => {}
                Ok(false) => return Ok(Some(i)),
                Err(e) => return Err((i + 1, e)),
            }
            l.state(&w.digest());
        }
        l.outcome(&w.tr);
        if s.settle {
            w.settle().map_err(|e| (h.len(), e))?;
        }
        Ok(None)
    })();
    if let Some(out) = log {
        *out = std::mem::take(&mut w.log);
    }
    r
}

pub fn explore(ctx: &Ctx, tag: &str, suites: &[Suite]) {
    for (si, s) in suites.iter().enumerate() {
        let k = s.alpha.len();
        let before = ctx.evals.load(std::sync::atomic::Ordering::Relaxed);
        let split = if s.depth > 5 { 3 } else { 2 };
        histories_pruned(ctx, s.cfgs.len(), k, s.depth, split, |ci, h, l| {
            let mut c = vec![si as u8, ci as u8];
            c.extend(h);
            case(&c);
            l.evals += 1;
            match guard(|| run_history(s, &s.cfgs[ci], h, l, None)) {
                Ok(Ok(None)) => None,
                Ok(Ok(Some(i))) => Some(i.min(h.len())),
                Ok(Err((i, (tags, m)))) => {
                    if tags.contains(tag) {
                        c.truncate(2 + i);
                        ctx.fail(&sigify(&m), describe(s, ci, &h[..i], &m), &c);
                    }
                    if !tags.contains(tag) {
                        l.foreign += 1;
                    }
                    // the rest of this branch says nothing new
                    if i == 0 { None } else { Some(i - 1) }
                }
                Err(p) => {
                    ctx.fail(&format!("panic {}", sigify(&p)), describe(s, ci, h, &format!("panic: {}", p)), &c);
                    None
                }
            }
        });
        let n = ctx.evals.load(std::sync::atomic::Ordering::Relaxed) - before;
        ctx.note(&format!("suite {}", s.name), format!("{} configurations, {} actions, depth {} (after {:?}): {} histories", s.cfgs.len(), k, s.depth, s.prefix, n));
        if ctx.stopped() {
            return;
        }
    }
    crate::engx::specials(ctx, tag);
}
fn describe(s: &Suite, ci: usize, h: &[u8], m: &str) -> String {
    format!("{}\n  suite {} configuration {:?}\n  after {:?}\n  history {:?}", m, s.name, s.cfgs[ci], s.prefix, h.iter().map(|x| s.alpha[*x as usize]).collect::<Vec<_>>())
}
pub fn replay(ctx: &Ctx, tag: &str, suites: &[Suite], c: &[u8]) {
    if c[0] >= 200 {
        return crate::engx::one(ctx, c, &mut Local::new());
    }
    let s = &suites[c[0] as usize];
    let mut log = vec![];
    let mut l = Local::new();
    let h = &c[2..];
    let r = guard(|| run_history(s, &s.cfgs[c[1] as usize], h, &mut l, Some(&mut log)));
    for x in &log {
        println!("{}", x);
    }
    match r {
        Ok(Err((_, (tags, m)))) if tags.contains(tag) => ctx.fail(&sigify(&m), describe(s, c[1] as usize, h, &m), c),
        Err(p) => ctx.fail(&format!("panic {}", sigify(&p)), p, c),
        x => println!("no violation: {:?}", x),
    }
}

pub fn suites(id: &str, th: bool) -> Vec<Suite> {
    use O::*;
    let d = |q: usize, t: usize| if th { t } else { q };
    let both = || vec![Cfg::v(5), Cfg::v(3), Cfg { noio: true, ..Cfg::v(5) }];
    let up = || vec![Connect, Ok(false)];
    match id {
        "E01" => vec![
            Suite { name: "ids", cfgs: vec![Cfg::v(5), Cfg::v(3)], prefix: up(), alpha: vec![Pub(1, 0), Pub(2, 0), Pub(0, 0), Sub, Unsub, PubId(1, 2), PubId(2, 1), SubId(3), UnsubId(2), PubId(1, 0), Ack(0, 0), Ack(9, 0), RecErr], depth: d(6, 7), settle: true },
            Suite { name: "ids over connections", cfgs: vec![Cfg { rm: 1, ..Cfg::v(5) }, Cfg { rm: 1, ..Cfg::v(3) }], prefix: up(), alpha: vec![Pub(1, 0), Pub(2, 0), Sub, PubId(1, 2), PubId(2, 65535), SubId(2), Ack(0, 0), Lost, Connect, Ok(true), Ok(false)], depth: d(6, 7), settle: true },
        ],
        "E02" => vec![
            Suite { name: "acks", cfgs: both(), prefix: up(), alpha: vec![Pub(1, 0), Pub(2, 0), Sub, Unsub, Ack(0, 0), Ack(9, 0x10), Ack(0, 0x97), RecErr, RecAgain, Wrong(0), Wrong(9), Unknown, Again], depth: d(6, 7), settle: true },
            Suite { name: "acks, deep", cfgs: vec![Cfg::v(5), Cfg::v(3)], prefix: up(), alpha: vec![Pub(2, 0), Pub(1, 0), Sub, Ack(0, 0), Ack(1, 0), Ack(9, 0), RecErr, Wrong(0)], depth: d(7, 9), settle: true },
            Suite { name: "acks over connections", cfgs: vec![Cfg::v(5), Cfg::v(3)], prefix: up(), alpha: vec![Pub(1, 0), Pub(2, 0), Sub, Unsub, Ack(0, 0), Ack(9, 0), Wrong(0), Again, Lost, Connect, Ok(true), Ok(false)], depth: d(7, 8), settle: true },
        ],
        "E03" => vec![
            Suite {
                name: "window",
                cfgs: vec![Cfg { rm: 1, ..Cfg::v(5) }, Cfg { rm: 2, ..Cfg::v(5) }, Cfg { rm: 1, ..Cfg::v(3) }, Cfg { rm: 2, noio: true, ..Cfg::v(3) }],
                prefix: up(),
                alpha: vec![Pub(0, 0), Pub(1, 0), Pub(2, 0), Pub(1, 5), Pub(2, 200), Sub, Ack(0, 0), Ack(9, 0), Ack(0, 0x87), Wrong(0), In(1, 5, false)],
                depth: d(6, 7),
                settle: true,
            },
            Suite {
                name: "window over connections",
                cfgs: vec![Cfg { rm: 3, ..Cfg::v(5) }, Cfg::v(5), Cfg { rm: 2, ..Cfg::v(3) }],
                prefix: vec![Connect, OkRm(false, 2)],
                alpha: vec![Pub(1, 0), Pub(2, 0), Pub(0, 3), Sub, Ack(0, 0), Ack(9, 0), Lost, Connect, Ok(true), OkRm(true, 1), OkRm(false, 1)],
                depth: d(7, 8),
                settle: true,
            },
            Suite {
                name: "window with retransmission",
                cfgs: vec![Cfg { rm: 1, rt: 1000, ..Cfg::v(3) }, Cfg { rm: 2, rt: 1000, ..Cfg::v(3) }, Cfg { rm: 2, rt: 1000, ..Cfg::v(5) }],
                prefix: up(),
                alpha: vec![Pub(1, 0), Pub(2, 0), Ack(0, 0), Ack(9, 0), Adv(1000), Lost, Connect, Ok(true), Ok(false)],
                depth: d(7, 8),
                settle: true,
            },
            Suite { name: "window from the start", cfgs: vec![Cfg::v(5)], prefix: vec![Connect], alpha: vec![Pub(1, 0), Pub(2, 1), Pub(0, 0), OkRm(false, 1), OkRm(false, 2), Ok(false), Ack(0, 0), Ack(9, 0x80)], depth: d(6, 8), settle: true },
        ],
        "E04" => vec![
            Suite {
                name: "incoming",
                cfgs: vec![Cfg::v(5), Cfg::v(3), Cfg { noio: true, ..Cfg::v(5) }, Cfg { auto_ack: false, ..Cfg::v(5) }, Cfg { auto_ack: false, ..Cfg::v(3) }],
                prefix: up(),
                alpha: vec![In(0, 0, false), In(1, 7, false), In(1, 7, true), In(2, 7, false), In(2, 7, true), In(2, 8, false), Rel(7), Rel(8), InPair, Half, Rest],
                depth: d(6, 7),
                settle: false,
            },
            Suite {
                name: "incoming over connections",
                cfgs: vec![Cfg::v(5), Cfg::v(3)],
                prefix: up(),
                alpha: vec![In(1, 7, true), In(2, 7, false), In(2, 7, true), In(2, 8, true), Rel(7), Half, Rest, Lost, Connect, Ok(true), Ok(false)],
                depth: d(7, 8),
                settle: false,
            },
            Suite {
                name: "incoming next to outgoing",
                cfgs: vec![Cfg { rm: 1, ..Cfg::v(5) }, Cfg { rm: 1, ..Cfg::v(3) }],
                prefix: up(),
                alpha: vec![In(1, 1, false), In(2, 1, false), In(2, 1, true), Rel(1), Pub(1, 0), Pub(2, 0), Ack(0, 0), Sub],
                depth: d(7, 8),
                settle: true,
            },
        ],
        "E05" => {
            let k = |ver, ka, mult| Cfg { ka, mult, ..Cfg::v(ver) };
            vec![
                Suite {
                    name: "keep-alive",
                    cfgs: vec![k(5, 10, 2), k(5, 10, 1), k(3, 10, 2), k(3, 10, 3), Cfg { noio: true, ..k(5, 10, 2) }, Cfg { auto_keep: false, ..k(5, 10, 2) }, k(5, 0, 2), k(5, 65535, 2)],
                    prefix: up(),
                    alpha: vec![Next, Adv(4000), Adv(10000), Late(25000), Tick, Ping, Pong, Pub(0, 0), In(1, 3, false), Bye],
                    depth: d(6, 8),
                    settle: false,
                },
                Suite {
                    name: "keep-alive over connections",
                    cfgs: vec![k(5, 10, 2), k(3, 10, 2)],
                    prefix: vec![Connect],
                    alpha: vec![Ok(false), OkSka(3), OkSka(0), Next, Adv(2000), Adv(11000), Late(21000), Pong, Lost, SrvBye, Bye, Connect],
                    depth: d(7, 8),
                    settle: false,
                },
                Suite {
                    name: "keep-alive with retransmission",
                    cfgs: vec![Cfg { rt: 3000, ..k(3, 5, 2) }, Cfg { rt: 7000, ..k(3, 5, 2) }],
                    prefix: up(),
                    alpha: vec![Pub(1, 0), Pub(2, 0), Ack(0, 0), Next, Adv(1000), Adv(6000), Pong, Late(4000)],
                    depth: d(6, 7),
                    settle: false,
                },
                Suite { name: "keep-alive with a full buffer", cfgs: vec![Cfg { out_max: 1, explicit: true, ..k(5, 10, 2) }], prefix: vec![Connect, Drain, Ok(false), Drain], alpha: vec![Pub(0, 0), Pub(1, 0), Drain, Tick, Late(10000), Late(20000), Pong], depth: d(6, 7), settle: false },
            ]
        }
        "E06" => vec![
            Suite {
                name: "retransmission",
                cfgs: vec![Cfg { rt: 1000, ..Cfg::v(3) }, Cfg { rt: 1000, ..Cfg::v(5) }, Cfg { rt: 1000, rm: 1, ..Cfg::v(3) }, Cfg { rt: 1000, noio: true, ..Cfg::v(3) }],
                prefix: up(),
                alpha: vec![Pub(1, 0), Pub(2, 0), Sub, Ack(0, 0), Ack(9, 0), Adv(400), Adv(1000), Late(2500), Next, Tick, Wrong(0)],
                depth: d(6, 7),
                settle: true,
            },
            Suite {
                name: "retransmission over connections",
                cfgs: vec![Cfg { rt: 1000, ..Cfg::v(3) }, Cfg { rt: 1000, ..Cfg::v(5) }],
                prefix: vec![Connect, Ok(false), Pub(2, 0), Pub(1, 0)],
                alpha: vec![Ack(0, 0), Ack(9, 0), Pub(1, 0), Adv(600), Adv(1000), Next, Lost, Connect, Ok(true), Ok(false)],
                depth: d(7, 8),
                settle: true,
            },
        ],
        "E07" => vec![
            Suite {
                name: "back-off",
                cfgs: vec![
                    Cfg::v(5),
                    Cfg { base: 100, max: 350, ..Cfg::v(3) },
                    Cfg { maxatt: 1, ..Cfg::v(5) },
                    Cfg { maxatt: 3, base: 7, max: 1_000_000, ..Cfg::v(5) },
                    Cfg { base: 5000, max: 1000, ..Cfg::v(5) },
                    Cfg { base: 0, max: 10, ..Cfg::v(5) },
                ],
                prefix: vec![],
                alpha: vec![Sched, Next, Tick, Adv(900), Late(3000), Connect, Ok(false), Refuse(0x05), Lost],
                depth: d(7, 9),
                settle: false,
            },
            Suite { name: "back-off after a dead peer", cfgs: vec![Cfg { ka: 5, mult: 1, maxatt: 2, ..Cfg::v(5) }, Cfg { ka: 5, mult: 2, ..Cfg::v(3) }], prefix: up(), alpha: vec![Next, Adv(5000), Pong, Connect, Ok(true), Refuse(0x88), Sched, Lost, Bye], depth: d(8, 9), settle: false },
        ],
        "E08" => vec![
            Suite { name: "resume", cfgs: both(), prefix: up(), alpha: vec![Pub(1, 0), Pub(2, 0), Sub, Ack(0, 0), Ack(9, 0), Lost, Connect, Ok(true), Ok(false), Refuse(0x87)], depth: d(8, 9), settle: true },
            Suite {
                name: "resume, three exchanges",
                cfgs: vec![Cfg::v(5), Cfg { rm: 2, ..Cfg::v(5) }, Cfg { rt: 1000, ..Cfg::v(3) }],
                prefix: vec![Connect, Ok(false), Pub(2, 0), Pub(1, 0), Pub(2, 9)],
                alpha: vec![Ack(0, 0), Ack(1, 0), Ack(9, 0), Pub(1, 0), Unsub, Lost, Connect, OkRm(true, 1), Ok(true), Ok(false)],
                depth: d(7, 8),
                settle: true,
            },
            Suite {
                name: "clean transport",
                cfgs: vec![Cfg { explicit: true, ..Cfg::v(5) }, Cfg { explicit: true, ..Cfg::v(3) }],
                prefix: vec![Connect, Drain, Ok(false), Drain],
                alpha: vec![Pub(1, 0), Pub(0, 0), Sub, In(2, 4, false), Half, Drain, Lost, Bye, SrvBye, Reset, Connect, Ok(true), Ok(false), Auth],
                depth: d(6, 7),
                settle: true,
            },
            Suite { name: "no trace of the old connection", cfgs: vec![Cfg { ka: 10, rt: 3000, ..Cfg::v(3) }, Cfg { ka: 10, ..Cfg::v(5) }], prefix: up(), alpha: vec![Pub(1, 0), In(2, 4, false), Half, Ping, Adv(8000), Adv(25000), Lost, SrvBye, Bye, Connect, Ok(true), Ok(false)], depth: d(6, 7), settle: true },
        ],
        "E09" => vec![
            Suite { name: "gate", cfgs: both(), prefix: vec![], alpha: vec![Connect, Ok(false), Refuse(0x05), Pub(1, 0), Pub(0, 9), Sub, Unsub, Ping, Auth, Bye, Lost, BadPub], depth: d(7, 8), settle: true },
            Suite { name: "gate, after a session", cfgs: both(), prefix: vec![Connect, Ok(false), Pub(2, 0), Lost], alpha: vec![Connect, Ok(true), Ok(false), Refuse(0x9c), Pub(1, 0), Sub, Tick, Adv(70_000), Auth, Bye, SrvBye, Lost], depth: d(7, 8), settle: true },
        ],
        "E10" => {
            let o = |ver, out_max| Cfg { ver, out_max, explicit: true, ..Cfg::v(ver) };
            vec![
                Suite {
                    name: "full outgoing buffer",
                    cfgs: vec![o(5, 1), o(5, 2), o(3, 1), Cfg { noio: true, ..o(5, 3) }, Cfg { rm: 1, ..o(5, 2) }],
                    prefix: vec![Connect, Drain, Ok(false), Drain],
                    alpha: vec![Pub(0, 0), Pub(1, 0), Pub(2, 9), Sub, Unsub, In(1, 6, false), In(2, 6, false), Ack(0, 0), Drain, BadPub, BadSub],
                    depth: d(6, 7),
                    settle: true,
                },
                Suite {
                    name: "full event buffer",
                    cfgs: vec![Cfg { ev_max: 1, ..Cfg::v(5) }, Cfg { ev_max: 2, ..Cfg::v(3) }, Cfg { ev_max: 3, ..Cfg::v(5) }, Cfg { ev_max: 5, ..Cfg::v(5) }, Cfg { ev_max: 2, ..o(5, 1) }],
                    prefix: vec![Connect, Drain, Ok(false), Drain],
                    alpha: vec![InPair, In(1, 6, false), In(2, 6, false), In(0, 0, false), More, Drain, Pub(0, 0), Half, Rest],
                    depth: d(6, 7),
                    settle: true,
                },
                Suite {
                    name: "full buffers before acceptance",
                    cfgs: vec![o(5, 1), o(3, 2)],
                    prefix: vec![Connect, Drain],
                    alpha: vec![Pub(0, 0), Pub(1, 3), Sub, Unsub, Ok(false), Drain, BadSub, Ack(0, 0), Bye],
                    depth: d(7, 8),
                    settle: true,
                },
            ]
        }
        _ => vec![],
    }
}
