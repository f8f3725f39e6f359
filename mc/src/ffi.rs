//! F01: the C and UniFFI faces of the engine in lock step with the engine itself.
use crate::env;
use crate::fw::*;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk_ffi::engine::ffi_types::*;
use flowsdk_ffi::engine::*;
use serde_json::{json, Value};
use std::ffi::{CStr, CString};
use std::ptr::{null, null_mut};
use std::time::{Duration, Instant};

/// What an engine event is on the other side; the four that have no form there are documented so.
pub fn spec(e: &MqttEvent) -> Option<Value> {
    Some(match e {
        MqttEvent::Connected(r) => json!({"Connected": {"reason_code": r.reason_code, "session_present": r.session_present}}),
        MqttEvent::Disconnected(c) => json!({"Disconnected": {"reason_code": c}}),
        MqttEvent::MessageReceived(m) => json!({"MessageReceived": {"topic": m.topic_name, "payload": m.payload, "qos": m.qos, "retain": m.retain}}),
        MqttEvent::Published(r) => json!({"Published": {"packet_id": r.packet_id, "reason_code": r.reason_code, "qos": r.qos}}),
        MqttEvent::Subscribed(r) => json!({"Subscribed": {"packet_id": r.packet_id, "reason_codes": r.reason_codes}}),
        MqttEvent::Unsubscribed(r) => json!({"Unsubscribed": {"packet_id": r.packet_id, "reason_codes": r.reason_codes}}),
        MqttEvent::PingResponse(r) => json!({"PingResponse": {"success": r.success}}),
        MqttEvent::Error(e) => json!({"Error": {"message": format!("{:?}", e)}}),
        MqttEvent::StreamClosed { stream_id, reason, by_peer } => json!({"StreamClosed": {"stream_id": stream_id, "reason": reason, "by_peer": by_peer}}),
        MqttEvent::StreamReset { stream_id, error_code } => json!({"StreamReset": {"stream_id": stream_id, "error_code": error_code}}),
        MqttEvent::StreamStopped { stream_id, error_code } => json!({"StreamStopped": {"stream_id": stream_id, "error_code": error_code}}),
        MqttEvent::ReconnectNeeded => json!("ReconnectNeeded"),
        MqttEvent::ReconnectScheduled { attempt, delay } => json!({"ReconnectScheduled": {"attempt": attempt, "delay_ms": delay.as_millis() as u64}}),
        MqttEvent::PublishReceived { .. } | MqttEvent::PubRelReceived { .. } | MqttEvent::TransportClosed { .. } | MqttEvent::ZeroRttStatusChanged { .. } => return None,
    })
}
pub fn specs(v: &[MqttEvent]) -> Vec<Value> {
    v.iter().filter_map(spec).collect()
}
pub fn vals(v: &[MqttEventFFI]) -> Vec<Value> {
    v.iter().map(|e| serde_json::to_value(e).unwrap()).collect()
}

unsafe fn c_str(p: *mut std::os::raw::c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok().map(|x| x.to_string());
    mqtt_engine_free_string(p);
    s
}
pub unsafe fn c_bytes(p: *mut u8, n: usize) -> Vec<u8> {
    if p.is_null() {
        return vec![];
    }
    let v = std::slice::from_raw_parts(p, n).to_vec();
    mqtt_engine_free_bytes(p, n);
    v
}

/// Every getter of the C event list, on every index and one past the end, against what the event is.
pub unsafe fn check_list(list: *mut MqttEventListFFI, want: &[Value]) -> Result<(), String> {
    if mqtt_event_list_len(list) != want.len() {
        return Err(format!("event list of {} instead of {}: expected {:?}", mqtt_event_list_len(list), want.len(), want));
    }
    let none = json!(null);
    for i in 0..=want.len() {
        let w = want.get(i).unwrap_or(&none);
        let (name, b) = match w {
            Value::String(s) => (s.clone(), none.clone()),
            Value::Object(o) => {
                let (k, v) = o.iter().next().unwrap();
                (k.clone(), v.clone())
            }
            _ => (String::new(), none.clone()),
        };
        let tag = ["", "Connected", "Disconnected", "MessageReceived", "Published", "Subscribed", "Unsubscribed", "PingResponse", "Error", "ReconnectNeeded", "ReconnectScheduled", "StreamClosed", "StreamReset", "StreamStopped"]
            .iter()
            .position(|x| *x == name)
            .unwrap();
        let is = |n: &str| name == n;
        let bad = |what: &str, got: String| Err(format!("event list getter {}: {} for {}", what, got, w));
        if mqtt_event_list_get_tag(list, i) as usize != tag {
            return bad("tag", mqtt_event_list_get_tag(list, i).to_string());
        }
        let rc = mqtt_event_list_get_connected_rc(list, i);
        if rc as u64 != if is("Connected") { b["reason_code"].as_u64().unwrap() } else { 0 } {
            return bad("connected_rc", rc.to_string());
        }
        let t = c_str(mqtt_event_list_get_message_topic(list, i));
        if t.as_deref() != if is("MessageReceived") { b["topic"].as_str() } else { None } {
            return bad("message_topic", format!("{:?}", t));
        }
        let mut n = 0usize;
        let p = mqtt_event_list_get_message_payload(list, i, &mut n);
        if p.is_null() == is("MessageReceived") {
            return bad("message_payload", "null".into());
        }
        let got = json!(c_bytes(p, n));
        if is("MessageReceived") && got != b["payload"] {
            return bad("message_payload", got.to_string());
        }
        let k = mqtt_event_list_get_published_pid(list, i);
        if k as i64 != if is("Published") { b["packet_id"].as_i64().unwrap_or(0) } else { -1 } {
            return bad("published_pid", k.to_string());
        }
        let k = mqtt_event_list_get_subscribed_pid(list, i);
        if k as i64 != if is("Subscribed") { b["packet_id"].as_i64().unwrap() } else { -1 } {
            return bad("subscribed_pid", k.to_string());
        }
        let t = c_str(mqtt_event_list_get_error_message(list, i));
        if t.as_deref() != if is("Error") { b["message"].as_str() } else { None } {
            return bad("error_message", format!("{:?}", t));
        }
        let k = mqtt_event_list_get_stream_id(list, i);
        if k != b["stream_id"].as_u64().unwrap_or(0) {
            return bad("stream_id", k.to_string());
        }
        let k = mqtt_event_list_get_stream_error_code(list, i);
        if k != b["error_code"].as_u64().unwrap_or(0) {
            return bad("stream_error_code", k.to_string());
        }
        let t = c_str(mqtt_event_list_get_stream_close_reason(list, i));
        if t.as_deref() != if is("StreamClosed") { b["reason"].as_str() } else { None } {
            return bad("stream_close_reason", format!("{:?}", t));
        }
        let k = mqtt_event_list_get_stream_closed_by_peer(list, i);
        if k != if is("StreamClosed") { b["by_peer"].as_bool().unwrap() as i32 } else { -1 } {
            return bad("stream_closed_by_peer", k.to_string());
        }
    }
    mqtt_event_list_free(list);
    Ok(())
}

const OPS: [&str; 29] = [
    "connect", "CONNACK", "CONNACK session", "CONNACK refused", "publish q0", "publish q1", "publish q2", "publish refused", "subscribe", "unsubscribe", "PUBACK", "PUBREC", "PUBCOMP",
    "SUBACK", "UNSUBACK", "in q0", "in q1", "in q2", "PUBREL", "PINGRESP", "tick", "tick 60 s", "disconnect", "DISCONNECT", "garbage", "lost", "auth", "take events", "take bytes",
];
const STARTS: [&str; 3] = ["new", "connected", "new_with_opts, connected"];
// ways of calling: 0 UniFFI, 1 C with event lists, 2 C with JSON events
const CONFIGS: usize = 2 * 3 * 3;

struct W {
    v: u8,
    way: u8,
    e: MqttEngine,
    f: *mut MqttEngineFFI,
    t0: Instant,
    q: Vec<Value>, // events not yet taken from the other side
    pid: [u16; 4], // last identifier for q1, q2, subscribe, unsubscribe
    n: usize,
    order: bool,
}
impl Drop for W {
    fn drop(&mut self) {
        unsafe { mqtt_engine_free(self.f) }
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: {:?} instead of {:?}", what, a, b))
    }
}

impl W {
    fn new(cfg: usize) -> Result<W, String> {
        env::vclock_off();
        env::vclock_on();
        let (v, way, start) = ([5u8, 3][cfg % 2], (cfg / 2 % 3) as u8, cfg / 6);
        let (e, f) = unsafe {
            if start < 2 {
                let id = if start == 0 { None } else { Some("cl\u{e9}") };
                let o = MqttClientOptions::builder().client_id(id.unwrap_or("mqtt_client")).mqtt_version(v).build();
                let f = if way == 0 {
                    Box::into_raw(Box::new(MqttEngineFFI::new(id.map(|x| x.to_string()), v)))
                } else {
                    let c = id.map(|x| CString::new(x).unwrap());
                    mqtt_engine_new(c.as_ref().map_or(null(), |x| x.as_ptr()), v)
                };
                (MqttEngine::new(o), f)
            } else {
                let o = MqttClientOptions::builder()
                    .client_id("id")
                    .mqtt_version(v)
                    .clean_start(false)
                    .keep_alive(77)
                    .username("us\u{20ac}r")
                    .password("p w")
                    .reconnect_base_delay_ms(123)
                    .reconnect_max_delay_ms(200)
                    .max_reconnect_attempts(2)
                    .build();
                let f = if way == 0 {
                    Box::into_raw(Box::new(MqttEngineFFI::new_with_opts(MqttOptionsFFI {
                        client_id: "id".into(),
                        mqtt_version: v,
                        clean_start: false,
                        keep_alive: 77,
                        username: Some("us\u{20ac}r".into()),
                        password: Some("p w".into()),
                        reconnect_base_delay_ms: 123,
                        reconnect_max_delay_ms: 200,
                        max_reconnect_attempts: 2,
                    })))
                } else {
                    let (a, b, c) = (CString::new("id").unwrap(), CString::new("us\u{20ac}r").unwrap(), CString::new("p w").unwrap());
                    mqtt_engine_new_with_opts(&MqttOptionsC {
                        client_id: a.as_ptr(),
                        mqtt_version: v,
                        clean_start: false,
                        keep_alive: 77,
                        username: b.as_ptr(),
                        password: c.as_ptr(),
                        reconnect_base_delay_ms: 123,
                        reconnect_max_delay_ms: 200,
                        max_reconnect_attempts: 2,
                    })
                };
                (MqttEngine::new(o), f)
            }
        };
        let mut w = W { v, way, e, f, t0: Instant::now(), q: vec![], pid: [0; 4], n: 0, order: true };
        if start > 0 {
            for o in [0, 28, 1, 27] {
                w.op(o)?;
            }
        }
        Ok(w)
    }
    fn feed(&mut self, b: &[u8]) -> Result<(), String> {
        let ev = specs(&self.e.handle_incoming(b));
        unsafe {
            if self.way == 0 {
                eq("events returned by handle_incoming", vals(&(*self.f).handle_incoming(b.to_vec())), ev.clone())?;
            } else {
                mqtt_engine_handle_incoming(self.f, b.as_ptr(), b.len());
            }
        }
        self.q.extend(ev);
        Ok(())
    }
    fn tick(&mut self) -> Result<(), String> {
        let ev = specs(&self.e.handle_tick(Instant::now()));
        unsafe {
            let ms = env::vnow_ms();
            if self.way == 0 {
                eq("events returned by handle_tick", vals(&(*self.f).handle_tick(ms)), ev.clone())?;
            } else {
                mqtt_engine_handle_tick(self.f, ms);
            }
        }
        self.q.extend(ev);
        Ok(())
    }
    fn publish(&mut self, topic: &str, payload: &[u8], qos: u8) -> Result<(), String> {
        let prio = if self.way == 0 && self.n % 2 == 0 { Some((self.n % 256) as u8) } else { None };
        let mut b = PublishCommand::builder().topic(topic).payload(payload.to_vec()).qos(qos);
        if let Some(p) = prio {
            b = b.priority(p);
        }
        let want = match b.build() {
            Err(_) => -1,
            Ok(c) => match self.e.publish(c) {
                Ok(Some(i)) => {
                    self.pid[if qos == 2 { 1 } else { 0 }] = i;
                    i as i32
                }
                Ok(None) => 0,
                Err(_) => -1,
            },
        };
        let got = unsafe {
            if self.way == 0 {
                (*self.f).publish(topic.into(), payload.to_vec(), qos, prio)
            } else {
                let t = CString::new(topic).unwrap();
                mqtt_engine_publish(self.f, t.as_ptr(), payload.as_ptr(), payload.len(), qos)
            }
        };
        eq("publish returns", got, want)
    }
    fn ack(&mut self, t: u8, k: usize) -> Result<(), String> {
        let [h, l] = self.pid[k].max(1).to_be_bytes();
        let b = match (t, self.v) {
            (0x90, 5) => vec![t, 5, h, l, 0, 1, 0x80],
            (0x90, _) => vec![t, 4, h, l, 2, 0x80],
            (0xb0, 5) => vec![t, 4, h, l, 0, 0x11],
            (_, 5) if self.n % 2 == 1 && t != 0x62 => vec![t, 3, h, l, if t == 0x70 { 0x92 } else { 0x97 }],
            _ => vec![t, 2, h, l],
        };
        self.feed(&b)
    }
    fn message(&mut self, q: u8) -> Result<(), String> {
        let topic = ["t", "\u{e9}/\u{20ac}\u{1f600}"][self.n % 2].as_bytes();
        let payload: &[u8] = [&b""[..], &[0, 255, b'"', 0x80][..], &[10u8; 300][..]][self.n % 3];
        let mut b = vec![0, topic.len() as u8];
        b.extend(topic);
        if q > 0 {
            b.extend([1, 7 + q]);
        }
        if self.v == 5 {
            b.push(0);
        }
        b.extend(payload);
        let mut f = vec![0x30 | q << 1 | (self.n % 2) as u8];
        f.extend(crate::refcodec::vbi(b.len()));
        f.extend(b);
        self.feed(&f)
    }
    fn take(&mut self) -> Result<(), String> {
        let mut want = std::mem::take(&mut self.q);
        want.extend(specs(&self.e.take_events()));
        self.order &= want.len() < 2 || want[0] != want[1];
        unsafe {
            match self.way {
                0 => eq("events taken", vals(&(*self.f).take_events()), want),
                1 => check_list(mqtt_engine_take_events_list(self.f), &want),
                _ => {
                    let s = c_str(mqtt_engine_take_events(self.f)).ok_or("no JSON text")?;
                    eq("JSON events", serde_json::from_str::<Vec<Value>>(&s).map_err(|e| e.to_string())?, want)
                }
            }
        }
    }
    fn bytes(&mut self) -> Result<Vec<u8>, String> {
        let want = self.e.take_outgoing();
        let got = unsafe {
            if self.way == 0 {
                (*self.f).take_outgoing()
            } else {
                let mut n = 99;
                let p = mqtt_engine_take_outgoing(self.f, &mut n);
                if p.is_null() && n != 0 {
                    return Err(format!("no bytes, length {}", n));
                }
                c_bytes(p, n)
            }
        };
        if got != want {
            return Err(format!("bytes sent: {} instead of {}", hex(&got), hex(&want)));
        }
        Ok(want)
    }
    fn op(&mut self, o: u8) -> Result<(), String> {
        self.n += 1;
        let v5 = self.v == 5;
        let f = self.f;
        let uni = self.way == 0;
        macro_rules! both {
            ($m:ident, $c:ident) => {{
                self.e.$m();
                unsafe {
                    if uni {
                        (*f).$m()
                    } else {
                        $c(f)
                    }
                }
            }};
        }
        match o {
            0 => both!(connect, mqtt_engine_connect),
            1..=3 => {
                let (sp, rc) = [(0, 0), (1, 0), (0, if v5 { 0x87 } else { 5 })][o as usize - 1];
                if v5 {
                    self.feed(&[0x20, 6, sp, rc, 3, 0x21, 0, 2])?
                } else {
                    self.feed(&[0x20, 2, sp, rc])?
                }
            }
            4 => self.publish("t/\u{e9}\u{20ac}", &[], 0)?,
            5 => self.publish("a", &[0, 255, 1], 1)?,
            6 => self.publish(" ", &[7; 200], 2)?,
            7 => {
                let (t, q) = [("a/#", 0), ("", 1), ("t", 3)][self.n % 3];
                self.publish(t, b"x", q)?
            }
            8 => {
                let (t, q) = ([("+/\u{e9}/#", 1), ("a", 2), ("", 0)])[self.n % 3];
                let want = self.e.subscribe(SubscribeCommand::single(t, q)).map_or(-1, |i| i as i32);
                if want > 0 {
                    self.pid[2] = want as u16;
                }
                let got = unsafe {
                    if uni {
                        (*f).subscribe(t.into(), q)
                    } else {
                        mqtt_engine_subscribe(f, CString::new(t).unwrap().as_ptr(), q)
                    }
                };
                eq("subscribe returns", got, want)?
            }
            9 => {
                let t = ["\u{e9}/#", "b"][self.n % 2];
                let want = self.e.unsubscribe(UnsubscribeCommand::from_topics(vec![t.to_string()])).map_or(-1, |i| i as i32);
                if want > 0 {
                    self.pid[3] = want as u16;
                }
                let got = unsafe {
                    if uni {
                        (*f).unsubscribe(t.into())
                    } else {
                        mqtt_engine_unsubscribe(f, CString::new(t).unwrap().as_ptr())
                    }
                };
                eq("unsubscribe returns", got, want)?
            }
            10 => self.ack(0x40, 0)?,
            11 => self.ack(0x50, 1)?,
            12 => self.ack(0x70, 1)?,
            13 => self.ack(0x90, 2)?,
            14 => self.ack(0xb0, 3)?,
            15..=17 => self.message(o - 15)?,
            18 => self.feed(&[0x62, 2, 1, 9])?,
            19 => self.feed(&[0xd0, 0])?,
            20 => self.tick()?,
            21 => {
                env::vadvance_ms(60_000);
                self.tick()?
            }
            22 => both!(disconnect, mqtt_engine_disconnect),
            23 => self.feed(&[0xe0, 1, 0x8b])?,
            24 => self.feed(&[0xff, 0xff, 0xff, 0xff, 0xff, 1])?,
            25 => both!(handle_connection_lost, mqtt_engine_handle_connection_lost),
            26 => {
                let r = [0x18, 0x19][self.n % 2];
                self.e.auth(r, vec![]);
                unsafe {
                    if uni {
                        (*f).auth(r)
                    } else {
                        mqtt_engine_auth(f, r)
                    }
                }
            }
            27 => self.take()?,
            _ => {
                self.bytes()?;
            }
        }
        unsafe {
            let (c, ms) = if uni { ((*f).is_connected(), (*f).next_tick_ms()) } else { (mqtt_engine_is_connected(f) == 1, mqtt_engine_next_tick_ms(f)) };
            eq("is_connected", c, self.e.is_connected())?;
            let ok = match self.e.next_tick_at() {
                None => ms == -1,
                Some(t) => {
                    let d = t.saturating_duration_since(self.t0);
                    ms == d.as_millis() as i64 || ms == (d + Duration::from_nanos(999_999)).as_millis() as i64
                }
            };
            if !ok {
                return Err(format!("next_tick_ms: {} for {:?} after the start", ms, self.e.next_tick_at().map(|t| t.saturating_duration_since(self.t0))));
            }
        }
        Ok(())
    }
}

fn run1(cfg: usize, h: &[u8], l: &mut Local) -> Result<(), (usize, String)> {
    let mut w = W::new(cfg).map_err(|e| (0, e))?;
    for (i, o) in h.iter().enumerate() {
        l.steps += 1;
        w.op(*o).map_err(|e| (i + 1, e))?;
    }
    let n = h.len();
    let ev = w.q.clone();
    w.take().map_err(|e| (n, e))?;
    let b = w.bytes().map_err(|e| (n, e))?;
    w.take().map_err(|e| (n, e))?;
    l.outcome(&(cfg, format!("{:?}", ev), b.clone()));
    l.state(&(cfg, w.e.is_connected(), w.pid, b, w.e.next_tick_at().map(|t| t.saturating_duration_since(w.t0))));
    Ok(())
}

fn one(ctx: &Ctx, cfg: usize, h: &[u8], l: &mut Local) {
    let mut c = vec![cfg as u8];
    c.extend(h);
    case(&c);
    l.evals += 1;
    let (n, e) = match guard(|| run1(cfg, h, l)) {
        Ok(Ok(())) => return,
        Ok(Err(x)) => x,
        Err(p) => (h.len(), format!("panic {}", p)),
    };
    c.truncate(1 + n);
    let names: Vec<&str> = h[..n].iter().map(|o| OPS[*o as usize]).collect();
    ctx.fail(&sigify(e.split(':').next().unwrap()), format!("v{}, {}, {}, {:?}: {}", [5, 3][cfg % 2], ["UniFFI", "C, event list", "C, JSON"][cfg / 2 % 3], STARTS[cfg / 6], names, e), &c);
}

/// Null handles, null arguments and text that is not text: refused, and nothing happened.
fn refusals(ctx: &Ctx, which: usize, l: &mut Local) {
    let c = [250, which as u8];
    case(&c);
    l.evals += 1;
    let r = guard(|| -> Result<(), String> {
        unsafe {
            let t = CString::new("t").unwrap();
            let bad = CString::new(vec![b'a', 0xff, 0xfe]).unwrap();
            let bads = [bad.as_ptr(), null()];
            let mut n = 5usize;
            match which {
                0 => {
                    let z: *mut MqttEngineFFI = null_mut();
                    mqtt_engine_free(z);
                    mqtt_engine_connect(z);
                    mqtt_engine_handle_incoming(z, b"x".as_ptr(), 1);
                    mqtt_engine_handle_tick(z, 1);
                    mqtt_engine_disconnect(z);
                    mqtt_engine_auth(z, 0);
                    mqtt_engine_handle_connection_lost(z);
                    mqtt_engine_free_string(null_mut());
                    mqtt_engine_free_bytes(null_mut(), 3);
                    mqtt_event_list_free(null_mut());
                    eq("next_tick_ms of null", mqtt_engine_next_tick_ms(z), -1)?;
                    eq("take_outgoing of null", mqtt_engine_take_outgoing(z, &mut n).is_null(), true)?;
                    eq("publish on null", mqtt_engine_publish(z, t.as_ptr(), b"x".as_ptr(), 1, 0), -1)?;
                    eq("subscribe on null", mqtt_engine_subscribe(z, t.as_ptr(), 0), -1)?;
                    eq("unsubscribe on null", mqtt_engine_unsubscribe(z, t.as_ptr()), -1)?;
                    eq("is_connected of null", mqtt_engine_is_connected(z), 0)?;
                    eq("get_version of null", mqtt_engine_get_version(z), 0)?;
                    eq("take_events of null", mqtt_engine_take_events(z).is_null(), true)?;
                    eq("take_events_list of null", mqtt_engine_take_events_list(z).is_null(), true)?;
                    eq("new_with_opts of null", mqtt_engine_new_with_opts(null()).is_null(), true)?;
                    let k: *mut MqttEventListFFI = null_mut();
                    eq("len of null", mqtt_event_list_len(k), 0)?;
                    eq("tag of null", mqtt_event_list_get_tag(k, 0), 0)?;
                    eq("rc of null", mqtt_event_list_get_connected_rc(k, 0), 0)?;
                    eq("topic of null", mqtt_event_list_get_message_topic(k, 0).is_null(), true)?;
                    eq("payload of null", mqtt_event_list_get_message_payload(k, 0, &mut n).is_null(), true)?;
                    eq("pid of null", (mqtt_event_list_get_published_pid(k, 0), mqtt_event_list_get_subscribed_pid(k, 0)), (-1, -1))?;
                    eq("error of null", mqtt_event_list_get_error_message(k, 0).is_null(), true)?;
                    eq("stream of null", (mqtt_event_list_get_stream_id(k, 0), mqtt_event_list_get_stream_error_code(k, 0), mqtt_event_list_get_stream_closed_by_peer(k, 0)), (0, 0, -1))?;
                    eq("reason of null", mqtt_event_list_get_stream_close_reason(k, 0).is_null(), true)?;
                }
                1 => {
                    let z: *mut TlsMqttEngineFFI = null_mut();
                    mqtt_tls_engine_free(z);
                    mqtt_tls_engine_connect(z);
                    mqtt_tls_engine_handle_socket_data(z, b"x".as_ptr(), 1);
                    mqtt_tls_engine_handle_tick(z, 1);
                    mqtt_tls_engine_disconnect(z);
                    eq("take_socket_data of null", mqtt_tls_engine_take_socket_data(z, &mut n).is_null(), true)?;
                    eq("publish on null", mqtt_tls_engine_publish(z, t.as_ptr(), b"x".as_ptr(), 1, 0), -1)?;
                    eq("subscribe on null", mqtt_tls_engine_subscribe(z, t.as_ptr(), 0), -1)?;
                    eq("unsubscribe on null", mqtt_tls_engine_unsubscribe(z, t.as_ptr()), -1)?;
                    eq("is_connected of null", mqtt_tls_engine_is_connected(z), 0)?;
                    eq("take_events of null", mqtt_tls_engine_take_events(z).is_null(), true)?;
                    eq("take_events_list of null", mqtt_tls_engine_take_events_list(z).is_null(), true)?;
                }
                2 => {
                    let z: *mut QuicMqttEngineFFI = null_mut();
                    mqtt_quic_engine_free(z);
                    mqtt_quic_engine_handle_datagram(z, b"x".as_ptr(), 1, t.as_ptr());
                    mqtt_quic_engine_handle_tick(z, 1);
                    mqtt_quic_engine_disconnect(z);
                    mqtt_quic_engine_free_datagrams(null_mut(), 3);
                    eq("connect on null", mqtt_quic_engine_connect(z, t.as_ptr(), t.as_ptr(), null()), -1)?;
                    eq("take_outgoing_datagrams of null", mqtt_quic_engine_take_outgoing_datagrams(z, &mut n).is_null(), true)?;
                    eq("publish on null", mqtt_quic_engine_publish(z, t.as_ptr(), b"x".as_ptr(), 1, 0), -1)?;
                    eq("subscribe on null", mqtt_quic_engine_subscribe(z, t.as_ptr(), 0), -1)?;
                    eq("unsubscribe on null", mqtt_quic_engine_unsubscribe(z, t.as_ptr()), -1)?;
                    eq("is_connected of null", mqtt_quic_engine_is_connected(z), 0)?;
                    eq("take_events of null", mqtt_quic_engine_take_events(z).is_null(), true)?;
                    eq("take_events_list of null", mqtt_quic_engine_take_events_list(z).is_null(), true)?;
                }
                3 => {
                    // arguments of the plain engine, connected, in both protocol versions
                    for cfg in [8, 9] {
                        let mut w = W::new(cfg)?;
                        let f = w.f;
                        mqtt_engine_handle_incoming(f, null(), 4);
                        eq("publish without payload pointer", mqtt_engine_publish(f, t.as_ptr(), null(), 4, 1), -1)?;
                        for b in bads {
                            let k = if b.is_null() { "null" } else { "not UTF-8" };
                            eq(&format!("publish, topic {}", k), mqtt_engine_publish(f, b, b"x".as_ptr(), 1, 1), -1)?;
                            eq(&format!("subscribe, filter {}", k), mqtt_engine_subscribe(f, b, 1), -1)?;
                            eq(&format!("unsubscribe, filter {}", k), mqtt_engine_unsubscribe(f, b), -1)?;
                        }
                        for o in [5, 8, 27, 28] {
                            w.op(o)?;
                        }
                    }
                }
                _ => {
                    // the TLS and QUIC engines refuse as the plain one does
                    let o = MqttTlsOptionsC { ca_cert_file: null(), client_cert_file: null(), client_key_file: null(), alpn: null(), insecure_skip_verify: 1, enable_key_log: 0 };
                    let host = CString::new("localhost").unwrap();
                    let s = mqtt_tls_engine_new(t.as_ptr(), 5, host.as_ptr(), &o);
                    let q = mqtt_quic_engine_new(t.as_ptr(), 5);
                    mqtt_tls_engine_handle_socket_data(s, null(), 3);
                    mqtt_quic_engine_handle_datagram(q, null(), 3, t.as_ptr());
                    mqtt_quic_engine_handle_datagram(q, b"x".as_ptr(), 1, null());
                    mqtt_quic_engine_handle_datagram(q, b"x".as_ptr(), 1, t.as_ptr());
                    for x in ["", "a/#", "+"] {
                        if PublishCommand::builder().topic(x).payload(vec![]).qos(0).build().is_ok() {
                            continue; // the engine itself takes it
                        }
                        let x = CString::new(x).unwrap();
                        eq("TLS publish, invalid topic", mqtt_tls_engine_publish(s, x.as_ptr(), b"x".as_ptr(), 1, 0), -1)?;
                        eq("QUIC publish, invalid topic", mqtt_quic_engine_publish(q, x.as_ptr(), b"x".as_ptr(), 1, 0), -1)?;
                    }
                    eq("TLS publish, QoS 3", mqtt_tls_engine_publish(s, t.as_ptr(), b"x".as_ptr(), 1, 3), -1)?;
                    eq("QUIC publish, QoS 3", mqtt_quic_engine_publish(q, t.as_ptr(), b"x".as_ptr(), 1, 3), -1)?;
                    eq("TLS publish without payload pointer", mqtt_tls_engine_publish(s, t.as_ptr(), null(), 4, 0), -1)?;
                    eq("QUIC publish without payload pointer", mqtt_quic_engine_publish(q, t.as_ptr(), null(), 4, 0), -1)?;
                    for b in bads {
                        eq("TLS publish, topic not text", mqtt_tls_engine_publish(s, b, b"x".as_ptr(), 1, 0), -1)?;
                        eq("TLS subscribe, filter not text", mqtt_tls_engine_subscribe(s, b, 0), -1)?;
                        eq("TLS unsubscribe, filter not text", mqtt_tls_engine_unsubscribe(s, b), -1)?;
                        eq("QUIC publish, topic not text", mqtt_quic_engine_publish(q, b, b"x".as_ptr(), 1, 0), -1)?;
                        eq("QUIC subscribe, filter not text", mqtt_quic_engine_subscribe(q, b, 0), -1)?;
                        eq("QUIC unsubscribe, filter not text", mqtt_quic_engine_unsubscribe(q, b), -1)?;
                        eq("QUIC connect, address not text", mqtt_quic_engine_connect(q, b, host.as_ptr(), &o), -1)?;
                        let addr = CString::new("127.0.0.1:1").unwrap();
                        eq("QUIC connect, name not text", mqtt_quic_engine_connect(q, addr.as_ptr(), b, &o), -1)?;
                    }
                    for a in ["", "localhost", "127.0.0.1", "127.0.0.1:99999"] {
                        let a = CString::new(a).unwrap();
                        eq("QUIC connect, no address", mqtt_quic_engine_connect(q, a.as_ptr(), host.as_ptr(), &o), -1)?;
                    }
                    eq("QUIC datagrams after refusals", mqtt_quic_engine_take_outgoing_datagrams(q, &mut n).is_null(), true)?;
                    mqtt_tls_engine_free(s);
                    mqtt_quic_engine_free(q);
                }
            }
        }
        Ok(())
    });
    if let Err(e) = r.unwrap_or_else(|p| Err(format!("panic {}", p))) {
        ctx.fail(&sigify(e.split(':').next().unwrap()), format!("refusals {}: {}", which, e), &c);
    }
}

pub fn f01(ctx: &Ctx) {
    let d = if ctx.thorough { 5 } else { 4 };
    histories(ctx, CONFIGS, OPS.len(), d, 2, |cfg, h, l| one(ctx, cfg, h, l));
    ctx.par(5, |i, l| refusals(ctx, i, l));
    ctx.note("bounds", format!("{} calls and arrivals, all sequences of length {}, by UniFFI, by C with event lists and by C with JSON, both protocol versions, from a new engine, a connected one and one with every option set", OPS.len(), d));
}

pub fn f01_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    if c[0] == 250 {
        refusals(ctx, c[1] as usize, &mut l);
    } else {
        one(ctx, c[0] as usize, &c[1..], &mut l);
    }
}
