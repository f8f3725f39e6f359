//! S01: the client session store against a list of unfinished exchanges.
use crate::fw::*;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::mqttv5::{puback::MqttPubAck, pubcomp::MqttPubComp, publish::MqttPublish, pubrec::MqttPubRec, pubrel::MqttPubRel};
use flowsdk::mqtt_session::ClientSession;

const OPS: [&str; 19] = [
    "publish q1", "publish q2", "publish q0", "same publish again", "publish q1 id 2", "PUBACK oldest q1", "PUBACK for a q2", "PUBREC oldest", "PUBREC error oldest",
    "PUBREC for a q1", "PUBREC again", "PUBREL sent", "PUBCOMP oldest", "PUBCOMP newest", "PUBCOMP too early", "acks for an unknown id", "incoming", "clear", "PUBACK newest q1",
];
const STARTS: [u32; 3] = [0, 65534, 65533];

#[derive(Clone, PartialEq)]
enum X {
    Pub(MqttPublish),
    Rel(u16),
}
impl X {
    fn id(&self) -> u16 {
        match self {
            X::Pub(p) => p.packet_id.unwrap(),
            X::Rel(i) => *i,
        }
    }
}

fn msg(q: u8, id: Option<u16>, n: usize) -> MqttPublish {
    let mut p = MqttPublish::new_with_prop(q, format!("t/{}", n), id, vec![n as u8; n % 4], n % 2 == 1, false, vec![]);
    p.properties = vec![Property::MessageExpiryInterval(n as u32)];
    p
}

struct W {
    s: ClientSession,
    m: Vec<X>, // in the order of the last packet sent for each
    n: usize,
    last_rel: Option<MqttPubRel>,
    last_id: u32,
}
impl W {
    fn fresh(&mut self) -> Result<u16, String> {
        let id = self.s.next_packet_id();
        if id == 0 || self.m.iter().any(|x| x.id() == id) {
            return Err(format!("identifier {} handed out, in use: {:?}", id, self.m.iter().map(|x| x.id()).collect::<Vec<_>>()));
        }
        self.last_id = id as u32;
        Ok(id)
    }
    fn first_pub(&self, q: u8) -> Option<usize> {
        self.m.iter().position(|x| matches!(x, X::Pub(p) if p.qos == q))
    }
    fn send(&mut self, p: MqttPublish) {
        self.s.handle_outgoing_publish(p.clone());
        if p.qos > 0 {
            self.m.push(X::Pub(p));
        }
    }
    /// false: nothing to do in this state
    fn op(&mut self, o: u8) -> Result<bool, String> {
        self.n += 1;
        let n = self.n;
        let rel = |i: u16| MqttPubRel::new(i, 0, vec![]);
        let first_rel = self.m.iter().position(|x| matches!(x, X::Rel(_)));
        let last_rel = self.m.iter().rposition(|x| matches!(x, X::Rel(_)));
        match o {
            0 | 1 => {
                let id = self.fresh()?;
                self.send(msg(o + 1, Some(id), n));
            }
            2 => self.send(msg(0, None, n)),
            3 => {
                let Some(X::Pub(p)) = self.m.iter().find(|x| matches!(x, X::Pub(_))) else { return Ok(false) };
                let mut p = p.clone();
                p.dup = true;
                self.s.handle_outgoing_publish(p);
            }
            4 => {
                if self.m.iter().any(|x| x.id() == 2) {
                    return Ok(false);
                }
                self.send(msg(1, Some(2), n));
            }
            5 | 18 => {
                let k = if o == 5 { self.first_pub(1) } else { self.m.iter().rposition(|x| matches!(x, X::Pub(p) if p.qos == 1)) };
                let Some(i) = k else { return Ok(false) };
                self.s.handle_incoming_puback(MqttPubAck::new(self.m[i].id(), if n % 2 == 0 { 0 } else { 0x97 }, vec![]));
                self.m.remove(i);
            }
            6 => {
                let Some(i) = self.first_pub(2).or(first_rel) else { return Ok(false) };
                self.s.handle_incoming_puback(MqttPubAck::new(self.m[i].id(), 0, vec![]));
            }
            7 | 8 => {
                let Some(i) = self.first_pub(2) else { return Ok(false) };
                let id = self.m[i].id();
                let rc = if o == 8 { [0x80, 0x97][n % 2] } else { [0, 0x10][n % 2] };
                let r = self.s.handle_incoming_pubrec(MqttPubRec::new(id, rc, vec![]));
                self.m.remove(i);
                if o == 7 {
                    if r != Some(rel(id)) {
                        return Err(format!("PUBREC answered with {:?}", r));
                    }
                    self.last_rel = r;
                    self.m.push(X::Rel(id));
                } else if r.is_some() {
                    return Err(format!("a refusing PUBREC answered with {:?}", r));
                }
            }
            9 => {
                let Some(i) = self.first_pub(1) else { return Ok(false) };
                self.s.handle_incoming_pubrec(MqttPubRec::new(self.m[i].id(), if n % 2 == 0 { 0 } else { 0x80 }, vec![]));
            }
            10 => {
                let Some(i) = first_rel else { return Ok(false) };
                let id = self.m[i].id();
                let r = self.s.handle_incoming_pubrec(MqttPubRec::new(id, 0, vec![]));
                if r != Some(rel(id)) {
                    return Err(format!("a repeated PUBREC answered with {:?}", r));
                }
            }
            11 => {
                let Some(r) = self.last_rel.take() else { return Ok(false) };
                if !self.m.iter().any(|x| *x == X::Rel(r.packet_id)) {
                    return Ok(false);
                }
                self.s.handle_outgoing_pubrel(r);
            }
            12 | 13 => {
                let Some(i) = (if o == 12 { first_rel } else { last_rel }) else { return Ok(false) };
                self.s.handle_incoming_pubcomp(MqttPubComp::new(self.m[i].id(), if n % 2 == 0 { 0 } else { 0x92 }, vec![]));
                self.m.remove(i);
            }
            14 => {
                let Some(x) = self.m.iter().find(|x| matches!(x, X::Pub(_))) else { return Ok(false) };
                self.s.handle_incoming_pubcomp(MqttPubComp::new(x.id(), 0, vec![]));
            }
            15 => {
                let free = (1..).find(|i| !self.m.iter().any(|x| x.id() == *i)).unwrap();
                self.s.handle_incoming_puback(MqttPubAck::new(free, 0, vec![]));
                self.s.handle_incoming_pubrec(MqttPubRec::new(free, 0x80, vec![]));
                self.s.handle_incoming_pubcomp(MqttPubComp::new(free, 0, vec![]));
            }
            16 => {
                // packets of the other direction may carry the same identifiers; they are answered in kind
                let id = self.m.first().map_or(1, |x| x.id());
                for q in 0..3u8 {
                    for dup in [false, true] {
                        let mut p = msg(q, if q > 0 { Some(id) } else { None }, n);
                        p.dup = dup;
                        let want = match q {
                            0 => None,
                            1 => Some(MqttPacket::PubAck5(MqttPubAck::new(id, 0, vec![]))),
                            _ => Some(MqttPacket::PubRec5(MqttPubRec::new(id, 0, vec![]))),
                        };
                        let got = self.s.handle_incoming_publish(p);
                        if got != want {
                            return Err(format!("incoming QoS {} answered with {:?}", q, got));
                        }
                    }
                }
                let got = self.s.handle_incoming_pubrel(rel(id));
                if got != MqttPubComp::new(id, 0, vec![]) {
                    return Err(format!("incoming PUBREL answered with {:?}", got));
                }
            }
            _ => {
                self.s.clear();
                self.m.clear();
            }
        }
        self.look()?;
        Ok(true)
    }
    fn look(&self) -> Result<(), String> {
        let want: Vec<MqttPacket> = self
            .m
            .iter()
            .map(|x| match x {
                X::Pub(p) => {
                    let mut p = p.clone();
                    p.dup = true;
                    MqttPacket::Publish5(p)
                }
                X::Rel(i) => MqttPacket::PubRel5(MqttPubRel::new(*i, 0, vec![])),
            })
            .collect();
        for _ in 0..2 {
            let got = self.s.resend_pending_messages();
            if got != want {
                return Err(format!("offers {} packets for resending that are not the {} unfinished ones in order: {:?} / {:?}", got.len(), want.len(), got, want));
            }
        }
        Ok(())
    }
}

fn run1(cfg: usize, h: &[u8], l: &mut Local) -> Result<Option<usize>, (usize, String)> {
    let mut w = W { s: ClientSession::new(), m: vec![], n: 0, last_rel: None, last_id: 0 };
    for _ in 0..STARTS[cfg] {
        w.s.next_packet_id();
    }
    for (i, o) in h.iter().enumerate() {
        l.steps += 1;
        match w.op(*o) {
            Ok(true) => {}
            Ok(false) => return Ok(Some(i)),
            Err(e) => return Err((i + 1, e)),
        }
    }
    l.state(&(cfg, w.m.iter().map(|x| (x.id(), matches!(x, X::Rel(_)), if let X::Pub(p) = x { p.qos } else { 9 })).collect::<Vec<_>>(), w.last_id));
    l.outcome(&(cfg, format!("{:?}", w.s.resend_pending_messages())));
    Ok(None)
}

/// The position of an operation that did nothing, or broke the property.
fn one(ctx: &Ctx, cfg: usize, h: &[u8], l: &mut Local) -> Option<usize> {
    let mut c = vec![cfg as u8];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let (n, e) = match guard(|| run1(cfg, h, l)) {
        Ok(Ok(b)) => return b,
        Ok(Err(x)) => x,
        Err(p) => (h.len(), format!("panic {}", p)),
    };
    c.truncate(1 + n);
    let names: Vec<&str> = h[..n].iter().map(|o| OPS[*o as usize]).collect();
    ctx.fail(&sigify(&e.split(':').next().unwrap()), format!("counter at {}, {:?}: {}", STARTS[cfg], names, e), &c);
    Some(n.max(1) - 1)
}

/// More exchanges than can be counted on one hand: identifiers come round while many are in use.
fn round(ctx: &Ctx, keep: usize, l: &mut Local) {
    let c = [200, keep as u8];
    case(&c);
    let r = guard(|| -> Result<(), String> {
        let mut w = W { s: ClientSession::new(), m: vec![], n: 0, last_rel: None, last_id: 0 };
        let kept = keep * 9;
        for i in 0..kept {
            let id = w.fresh()?;
            w.send(msg(1 + (i % 2) as u8, Some(id), i));
            if i % 4 == 3 {
                w.s.handle_incoming_pubrec(MqttPubRec::new(id, 0, vec![]));
                w.m.pop();
                w.m.push(X::Rel(id));
            }
        }
        let mut seen = std::collections::HashSet::new();
        for _ in 0..65535 - kept {
            let id = w.fresh()?;
            if !seen.insert(id) {
                return Err(format!("identifier {} twice in a round", id));
            }
        }
        w.fresh()?;
        l.steps += 65535;
        w.look()
    });
    l.evals += 1;
    if let Err(e) = r.unwrap_or_else(Err) {
        ctx.fail(&sigify(&e.split(':').next().unwrap()), format!("{} exchanges kept: {}", keep * 9, e), &c);
    }
}

pub fn s01(ctx: &Ctx) {
    let d = if ctx.thorough { 8 } else { 6 };
    histories_pruned(ctx, 1, OPS.len(), d, 2, |cfg, h, l| one(ctx, cfg, h, l));
    // the counter coming round
    histories_pruned(ctx, 2, OPS.len(), 4, 2, |cfg, h, l| one(ctx, cfg + 1, h, l));
    ctx.par(5, |i, l| round(ctx, i, l));
    ctx.note("bounds", format!("{} operations, all sequences of length {} that do something at each step (4 with the identifier counter next to its end); full rounds of the counter with 0 to 36 exchanges unfinished", OPS.len(), d));
}

pub fn s01_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    if c[0] == 200 {
        round(ctx, c[1] as usize, &mut l);
    } else {
        one(ctx, c[0] as usize, &c[1..], &mut l);
    }
}
