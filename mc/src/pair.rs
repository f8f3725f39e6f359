//! G02: the real `r-proxy` and `s-proxy` processes between scripted clients and a scripted broker, on loopback.
//! Every history of packets, fragments, closes, resets and rubbish from either end, with each proxy process
//! stopped or running at every step, is carried out; what comes out at the far end is compared with what went in.
use crate::alpha;
use crate::env::{real_now_ms, real_sleep_ms};
use crate::fw::*;
use crate::refcodec::*;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

/// How long something that must happen may take.  Once one wait has failed the run is over: the others stop waiting.
const PATIENCE: u64 = 15_000;
static FAILED: AtomicBool = AtomicBool::new(false);
const GIVEN_UP: &str = "given up";

fn bin(name: &str) -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name(name)
}
fn free_port() -> u16 {
    static N: AtomicU32 = AtomicU32::new(0);
    // outside the range of ports the kernel hands out by itself
    loop {
        let p = 12000 + ((std::process::id() * 131 + N.fetch_add(1, SeqCst)) % 16000) as u16;
        if TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}
fn spawn(name: &str, port: u16, dest: u16) -> Child {
    let mut c = Command::new(bin(name));
    c.arg(port.to_string()).arg(format!("127.0.0.1:{}", dest)).env("RUST_LOG", "off").env("TOKIO_WORKER_THREADS", "2");
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().expect("proxy binary")
}
fn up(port: u16, c: &mut Child) -> bool {
    for _ in 0..3000 {
        if TcpStream::connect(("127.0.0.1", port)).map(|s| linger0(&s)).is_ok() {
            return true;
        }
        if c.try_wait().ok().flatten().is_some() {
            return false;
        }
        real_sleep_ms(5);
    }
    false
}
fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

struct Proc {
    name: &'static str,
    port: u16,
    dest: u16,
    c: Option<Child>,
    stopped: bool,
}
impl Proc {
    fn start(name: &'static str, dest: u16) -> Proc {
        for _ in 0..20 {
            let port = free_port();
            let mut c = spawn(name, port, dest);
            if up(port, &mut c) {
                return Proc { name, port, dest, c: Some(c), stopped: false };
            }
            let _ = c.kill();
            let _ = c.wait();
        }
        panic!("{} does not start", name)
    }
    fn pid(&self) -> i32 {
        self.c.as_ref().map_or(0, |c| c.id() as i32)
    }
    fn stop(&mut self, on: bool) {
        if self.stopped == on || self.c.is_none() {
            return;
        }
        unsafe {
            libc::kill(self.pid(), if on { libc::SIGSTOP } else { libc::SIGCONT });
            if on {
                let mut st = 0;
                libc::waitpid(self.pid(), &mut st, libc::WUNTRACED);
            }
        }
        self.stopped = on;
    }
    fn kill(&mut self) {
        if let Some(mut c) = self.c.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
        self.stopped = false;
    }
    fn again(&mut self) -> bool {
        self.kill();
        let mut c = spawn(self.name, self.port, self.dest);
        let ok = up(self.port, &mut c);
        self.c = Some(c);
        ok
    }
    fn alive(&mut self) -> bool {
        self.c.as_mut().is_some_and(|c| matches!(c.try_wait(), Ok(None)))
    }
    /// All threads asleep.
    fn idle(&self) -> bool {
        let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.pid())) else { return true };
        for t in d.flatten() {
            let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
            if let Some(i) = s.rfind(')') {
                if s[i..].starts_with(") R") {
                    return false;
                }
            }
        }
        true
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.kill()
    }
}

/// One end of a connection as the harness holds it.
#[derive(Default)]
struct End {
    s: Option<TcpStream>,
    got: Vec<u8>,
    /// complete frames taken from `got`
    frames: Vec<Vec<u8>>,
    eof: bool,
    out: Vec<u8>,
    off: usize,
    fin: bool,
    fin_sent: bool,
    /// leaves what arrives unread
    hold: bool,
}
impl End {
    fn new(s: TcpStream) -> End {
        s.set_nonblocking(true).unwrap();
        s.set_nodelay(true).ok();
        let mut e = End::default();
        e.s = Some(s);
        e
    }
    fn pump(&mut self) {
        let Some(s) = &mut self.s else { return };
        while !self.out.is_empty() {
            match s.write(&self.out[self.off..]) {
                Ok(n) => {
                    self.off += n;
                    if self.off == self.out.len() {
                        self.out.clear();
                        self.off = 0;
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(_) => {
                    self.out.clear();
                    self.off = 0;
                }
            }
        }
        if self.fin && !self.fin_sent && self.out.is_empty() {
            let _ = s.shutdown(std::net::Shutdown::Write);
            self.fin_sent = true;
        }
        let mut b = [0u8; 65536];
        while !self.eof && !self.hold {
            match s.read(&mut b) {
                Ok(0) => self.eof = true,
                Ok(n) => self.got.extend(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(_) => self.eof = true,
            }
        }
        let mut i = 0;
        while let Framing::Frame { total, .. } = framing(&self.got[i..]) {
            self.frames.push(self.got[i..i + total].to_vec());
            i += total;
        }
        self.got.drain(..i);
    }
    fn left(&self) -> usize {
        self.out.len() - self.off
    }
    fn send(&mut self, b: &[u8]) {
        self.out.extend(b);
        self.pump();
    }
    fn reset(&mut self) {
        if let Some(s) = self.s.take() {
            linger0(&s);
        }
        self.eof = true;
        self.out.clear();
        self.off = 0;
    }
}
impl Drop for End {
    fn drop(&mut self) {
        if let Some(s) = &self.s {
            linger0(s);
        }
    }
}

/// One MQTT connection through the pair.
struct Sess {
    ver: u8,
    tag: u16,
    c: End,
    b: Option<End>,
    up: Vec<Vec<u8>>,
    down: Vec<Vec<u8>>,
    up_ok: usize,
    down_ok: usize,
    cpart: Vec<u8>,
    bpart: Vec<u8>,
    seq: u32,
}

struct Fleet {
    listener: Option<TcpListener>,
    bport: u16,
    r: Proc,
    s: Proc,
    fresh: Vec<End>,
    tag: u16,
}
impl Fleet {
    fn new() -> Fleet {
        let l = TcpListener::bind(("127.0.0.1", 0)).unwrap();
        l.set_nonblocking(true).unwrap();
        let bport = l.local_addr().unwrap().port();
        let s = Proc::start("s-proxy", bport);
        let r = Proc::start("r-proxy", s.port);
        Fleet { listener: Some(l), bport, r, s, fresh: vec![], tag: 0 }
    }
    fn run(&mut self) {
        self.r.stop(false);
        self.s.stop(false);
    }
    fn frozen(&self) -> bool {
        self.r.stopped || self.s.stopped
    }
    fn open(&mut self, ver: u8) -> Sess {
        let s = TcpStream::connect(("127.0.0.1", self.r.port)).expect("r-proxy accepts");
        self.tag = self.tag % 60000 + 1;
        Sess { ver, tag: self.tag, c: End::new(s), b: None, up: vec![], down: vec![], up_ok: 0, down_ok: 0, cpart: vec![], bpart: vec![], seq: 0 }
    }
    /// Lets things move until `f` holds or patience ends.
    fn until(&mut self, ss: &mut [Sess], l: &mut Local, mut f: impl FnMut(&[Sess]) -> bool) -> Result<bool, String> {
        let mut t0 = real_now_ms();
        let mut last = 0;
        loop {
            self.pump(ss)?;
            if f(ss) {
                return Ok(true);
            }
            // as long as something arrives, nothing is late
            let now: usize = ss.iter().map(|s| s.up_ok + s.down_ok).sum();
            if now != last {
                last = now;
                t0 = real_now_ms();
            }
            let t = real_now_ms() - t0;
            if t > PATIENCE {
                return Ok(false);
            }
            if t > 1000 && FAILED.load(Relaxed) {
                return Err(GIVEN_UP.into());
            }
            l.steps += 1;
            let mut p: Vec<libc::pollfd> = vec![];
            let mut add = |fd: i32, w: bool| p.push(libc::pollfd { fd, events: libc::POLLIN | if w { libc::POLLOUT } else { 0 }, revents: 0 });
            if let Some(x) = &self.listener {
                add(x.as_raw_fd(), false);
            }
            for e in self.fresh.iter().chain(ss.iter().flat_map(|s| [Some(&s.c), s.b.as_ref()]).flatten()) {
                if let (Some(s), false) = (&e.s, (e.eof || e.hold) && e.out.is_empty()) {
                    add(s.as_raw_fd(), !e.out.is_empty());
                }
            }
            unsafe {
                libc::poll(p.as_mut_ptr(), p.len() as u64, 100);
            }
        }
    }
    fn pump(&mut self, ss: &mut [Sess]) -> Result<(), String> {
        if let Some(x) = &self.listener {
            while let Ok((s, _)) = x.accept() {
                self.fresh.push(End::new(s));
            }
        }
        for e in &mut self.fresh {
            e.pump();
        }
        self.fresh.retain(|e| !e.eof || !e.frames.is_empty());
        // a connection belongs to the session whose CONNECT comes first on it
        let mut i = 0;
        while i < self.fresh.len() {
            let Some(first) = self.fresh[i].frames.first() else {
                i += 1;
                continue;
            };
            let tag = match (want(first, 5), want(first, 4)) {
                (Want::Packet(P::Connect5(c), _), _) => c.keep_alive,
                (_, Want::Packet(P::Connect3(c), _)) => c.keep_alive,
                _ => return Err(format!("the broker's first packet is {}", hex(first))),
            };
            let Some(s) = ss.iter_mut().find(|s| s.tag == tag) else {
                // a session of an earlier history
                self.fresh.remove(i);
                continue;
            };
            if s.b.is_some() {
                return Err("a second broker connection for one client".into());
            }
            s.b = Some(self.fresh.remove(i));
        }
        for s in ss {
            s.c.pump();
            if let Some(b) = &mut s.b {
                b.pump();
                let ver = s.ver;
                check(&b.frames, &s.up, &mut s.up_ok, ver, "broker")?;
            }
            check(&s.c.frames, &s.down, &mut s.down_ok, s.ver, "client")?;
        }
        Ok(())
    }
    /// Waits until every packet sent so far has come out, unless a process is stopped.
    fn settle(&mut self, ss: &mut [Sess], l: &mut Local) -> Result<(), String> {
        if self.frozen() {
            return self.pump(ss);
        }
        if !self.until(ss, l, |ss| ss.iter().all(|s| (s.c.fin || s.b.is_some()) && s.up_ok == s.up.len() && s.down_ok == s.down.len()))? {
            let s = ss.iter().find(|s| s.b.is_none() || s.up_ok != s.up.len() || s.down_ok != s.down.len()).unwrap();
            return Err(format!("not relayed: broker connection {}, {} of {} packets at the broker, {} of {} at the client, closed: {} {}", s.b.is_some(), s.up_ok, s.up.len(), s.down_ok, s.down.len(), s.c.eof, s.b.as_ref().is_some_and(|b| b.eof)));
        }
        Ok(())
    }
    /// Both processes asleep (fragments leave no other trace).
    fn quiet(&self) {
        for _ in 0..40 {
            if (self.r.stopped || self.r.idle()) && (self.s.stopped || self.s.idle()) {
                return;
            }
            std::thread::yield_now();
        }
    }
}
/// What came out so far must be what went in, in order.
fn check(got: &[Vec<u8>], exp: &[Vec<u8>], ok: &mut usize, ver: u8, who: &str) -> Result<(), String> {
    while *ok < got.len() {
        let g = &got[*ok];
        let Some(e) = exp.get(*ok) else { return Err(format!("the {} gets a packet nobody sent: {}", who, short(g))) };
        if g != e && want(g, ver) != want(e, ver) {
            return Err(format!("the {} gets packet {} as {} instead of {}", who, ok, short(g), short(e)));
        }
        *ok += 1;
    }
    Ok(())
}
fn short(b: &[u8]) -> String {
    let h = hex(&b[..b.len().min(60)]);
    if b.len() > 60 {
        format!("{}.. ({} bytes)", h, b.len())
    } else {
        h
    }
}

fn connect(ver: u8, id: &str, tag: u16) -> Vec<u8> {
    refenc(&if ver == 5 {
        P::Connect5(flowsdk::mqtt_serde::mqttv5::connectv5::MqttConnect::new(id.into(), None, None, None, tag, true, vec![]))
    } else {
        P::Connect3(flowsdk::mqtt_serde::mqttv3::connectv3::MqttConnect::new(id.into(), tag, true))
    })
}
fn connack(ver: u8) -> Vec<u8> {
    if ver == 5 {
        vec![0x20, 3, 0, 0, 0]
    } else {
        vec![0x20, 2, 0, 0]
    }
}
fn publish(ver: u8, topic: &str, qos: u8, n: u32, size: usize) -> Vec<u8> {
    let mut p = n.to_be_bytes().to_vec();
    p.extend((0..size).map(|i| (i as u32 + n) as u8));
    let pid = if qos > 0 { Some((n % 65535) as u16 + 1) } else { None };
    refenc(&if ver == 5 {
        P::Publish5(flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish::new(qos, topic.into(), pid, p, false, false))
    } else {
        P::Publish3(flowsdk::mqtt_serde::mqttv3::publishv3::MqttPublish::new(topic.into(), qos, p, pid, false, false))
    })
}
fn subscribe(ver: u8, n: u32) -> Vec<u8> {
    let id = (n % 65535) as u16 + 1;
    refenc(&if ver == 5 {
        use flowsdk::mqtt_serde::mqttv5::subscribev5::*;
        P::Subscribe5(MqttSubscribe::new(id, vec![TopicSubscription::new_simple("a/+".into(), 1)], vec![]))
    } else {
        use flowsdk::mqtt_serde::mqttv3::subscribev3::*;
        P::Subscribe3(MqttSubscribe::new(id, vec![SubscriptionTopic { topic_filter: "a/+".into(), qos: 1 }]))
    })
}
fn disconnect(ver: u8) -> Vec<u8> {
    refenc(&if ver == 5 { P::Disconnect5(flowsdk::mqtt_serde::mqttv5::disconnectv5::MqttDisconnect::new(4, vec![])) } else { P::Disconnect3(flowsdk::mqtt_serde::mqttv3::disconnectv3::MqttDisconnect::new()) })
}

impl Sess {
    fn next(&mut self) -> u32 {
        self.seq += 1;
        self.tag as u32 * 4096 + self.seq
    }
    /// Queues complete packets, after the rest of a packet begun earlier, as one segment.
    fn client_sends(&mut self, v: Vec<Vec<u8>>) {
        let mut b = std::mem::take(&mut self.cpart);
        for p in v {
            b.extend(&p);
            self.up.push(p);
        }
        self.c.send(&b);
    }
    fn broker_sends(&mut self, v: Vec<Vec<u8>>) {
        let mut b = std::mem::take(&mut self.bpart);
        for p in v {
            b.extend(&p);
            self.down.push(p);
        }
        if let Some(e) = &mut self.b {
            e.send(&b);
        }
    }
    /// A piece of a packet: its first byte, then up to the middle, then all but the last byte.
    fn client_fragment(&mut self) {
        if self.cpart.is_empty() {
            let n = self.next();
            let p = publish(self.ver, "f", 0, n, 9);
            self.up.push(p.clone());
            self.cpart = p;
        }
        let n = piece(&self.cpart);
        let b: Vec<u8> = self.cpart.drain(..n).collect();
        self.c.send(&b);
    }
    fn broker_fragment(&mut self) {
        if self.bpart.is_empty() {
            let n = self.next();
            let p = publish(self.ver, "g", 0, n, 9);
            self.down.push(p.clone());
            self.bpart = p;
        }
        let n = piece(&self.bpart);
        let b: Vec<u8> = self.bpart.drain(..n).collect();
        if let Some(e) = &mut self.b {
            e.send(&b);
        }
    }
}
fn piece(rest: &[u8]) -> usize {
    match rest.len() {
        n if n > 15 => 1,
        n if n > 8 => n - 8,
        n if n > 1 => n - 1,
        _ => 1,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum M {
    Pub,
    Two,
    Part,
    BPub,
    BTwo,
    BPart,
    StopS,
    StopR,
    Other,
    Big,
    BBig,
    // these end the session
    Eof,
    Disc,
    Rst,
    BEof,
    BRst,
    Junk,
    BJunk,
}
use M::*;
const MOVES: [M; 18] = [Pub, Two, Part, BPub, BTwo, BPart, StopS, StopR, Other, Big, BBig, Eof, Disc, Rst, BEof, BRst, Junk, BJunk];
const ENDS: [M; 7] = [Eof, Disc, Rst, BEof, BRst, Junk, BJunk];

/// How a session begins.
#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Plain,
    /// CONNECT with two more packets in its segment
    Along,
    /// CONNECT in pieces
    Cut,
    /// s-proxy stopped when CONNECT and a packet arrive
    Late,
    /// no client identifier
    NoId,
}
const BEGIN: [B; 5] = [B::Plain, B::Along, B::Cut, B::Late, B::NoId];

fn begin(f: &mut Fleet, ver: u8, b: B, ss: &mut [Sess], l: &mut Local) -> Result<(), String> {
    let tag = ss[0].tag;
    let id = if b == B::NoId { "" } else { "dev" };
    let c = connect(ver, id, tag);
    let s = &mut ss[0];
    match b {
        B::Plain | B::NoId => s.client_sends(vec![c]),
        B::Along => {
            let n = s.next();
            let v = vec![c, subscribe(ver, n), publish(ver, "a", 0, n, 1)];
            s.client_sends(v)
        }
        B::Cut => {
            s.up.push(c.clone());
            for k in [0..1, 1..3, 3..9, 9..10, 10..c.len()] {
                ss[0].c.send(&c[k]);
                f.quiet();
            }
        }
        B::Late => {
            f.s.stop(true);
            let n = s.next();
            let v = vec![c, publish(ver, "a", 1, n, 1)];
            s.client_sends(v);
            f.quiet();
            f.s.stop(false);
        }
    }
    f.settle(ss, l)?;
    ss[0].broker_sends(vec![connack(ver)]);
    f.settle(ss, l)
}

/// How the history went wrong, if it did; otherwise where pruning may cut.
fn history(f: &mut Fleet, ver: u8, b: B, h: &[M], l: &mut Local) -> Result<Option<usize>, String> {
    let mut ss = vec![f.open(ver)];
    begin(f, ver, b, &mut ss, l)?;
    let mut cut = None;
    let mut end = None;
    for (i, &m) in h.iter().enumerate() {
        l.steps += 1;
        if m == Other && ss.len() > 1 {
            cut = Some(i);
            break;
        }
        let s = &mut ss[0];
        match m {
            Pub => {
                let n = s.next();
                s.client_sends(vec![publish(ver, "a", 1, n, 3)])
            }
            Two => {
                let n = s.next();
                s.client_sends(vec![subscribe(ver, n), publish(ver, "b", 0, n, 0)])
            }
            Big => {
                let n = s.next();
                s.client_sends(vec![publish(ver, "big", 0, n, 40_000)])
            }
            BPub => {
                let n = s.next();
                s.broker_sends(vec![publish(ver, "c", 1, n, 3)])
            }
            BTwo => {
                let n = s.next();
                s.broker_sends(vec![publish(ver, "c", 2, n, 3), publish(ver, "d", 0, n, 0)])
            }
            BBig => {
                let n = s.next();
                s.broker_sends(vec![publish(ver, "big", 0, n, 40_000)])
            }
            Part | BPart => {
                if m == Part {
                    s.client_fragment()
                } else {
                    s.broker_fragment()
                }
                f.quiet();
                continue;
            }
            StopS => {
                let on = !f.s.stopped;
                f.s.stop(on);
            }
            StopR => {
                let on = !f.r.stopped;
                f.r.stop(on);
            }
            Other => {
                // the same identifier again, on a connection of its own
                let mut o = f.open(ver);
                let id = if b == B::NoId { "" } else { "dev" };
                let (t, n) = (o.tag, o.next());
                o.client_sends(vec![connect(ver, id, t), publish(ver, "o", 1, n, 1)]);
                ss.push(o);
            }
            Eof => s.c.fin = true,
            Disc => {
                let d = disconnect(ver);
                s.client_sends(vec![d]);
                s.c.fin = true;
            }
            Rst => s.c.reset(),
            BEof => s.b.as_mut().unwrap().fin = true,
            BRst => s.b.as_mut().unwrap().reset(),
            Junk => {
                let mut x = std::mem::take(&mut s.cpart);
                x.extend([0x30, 0xff, 0xff, 0xff, 0xff, 0xff]);
                s.c.send(&x);
            }
            BJunk => {
                let mut x = std::mem::take(&mut s.bpart);
                x.extend([0x30, 0xff, 0xff, 0xff, 0xff, 0xff]);
                s.b.as_mut().unwrap().send(&x);
            }
        }
        f.pump(&mut ss)?;
        if ENDS.contains(&m) {
            end = Some(m);
            if i + 1 < h.len() {
                cut = Some(i);
            }
            break;
        }
        // pieces of packets are not waited for
        if ss[0].cpart.is_empty() && ss[0].bpart.is_empty() {
            f.settle(&mut ss, l)?;
        } else {
            f.quiet();
        }
    }
    // a packet left in pieces does not count, unless the end completed it
    let s = &mut ss[0];
    if !s.cpart.is_empty() {
        // it is the last one begun: packets sent later would have completed it
        s.up.pop();
    }
    if !s.bpart.is_empty() {
        s.down.pop();
    }
    f.run();
    let end = end.unwrap_or_else(|| {
        ss[0].c.fin = true;
        Eof
    });
    // the other session lives on, whatever happened to the first
    if ss.len() > 1 {
        let o = &mut ss[1];
        let n = o.next();
        o.client_sends(vec![publish(ver, "o", 0, n, 2)]);
        if !f.until(&mut ss, l, |ss| ss[1].b.is_some())? {
            return Err("the second client with the same identifier gets no broker connection".into());
        }
        let o = &mut ss[1];
        o.broker_sends(vec![connack(ver), publish(ver, "p", 1, n, 2)]);
        if !f.until(&mut ss, l, |ss| ss[1].up_ok == ss[1].up.len() && ss[1].down_ok == ss[1].down.len())? {
            return Err(format!("second client: {} of {} packets at the broker, {} of {} at the client", ss[1].up_ok, ss[1].up.len(), ss[1].down_ok, ss[1].down.len()));
        }
        ss[1].c.fin = true;
        if !f.until(&mut ss, l, |ss| ss[1].b.as_ref().unwrap().eof)? {
            return Err("the second client has left, its broker connection stays".into());
        }
    }
    let all_up = !matches!(end, Rst | BRst | BEof | BJunk);
    let all_down = matches!(end, BEof | BJunk);
    let done = |ss: &[Sess]| {
        let s = &ss[0];
        let be = s.b.as_ref().is_none_or(|b| b.eof);
        // everything received so far, and the connection closed
        (!all_up || s.up_ok == s.up.len()) && (!all_down || s.down_ok == s.down.len()) && be && s.c.eof
    };
    if !f.until(&mut ss, l, done)? {
        let s = &ss[0];
        let mut what = vec![];
        if all_up && s.up_ok != s.up.len() {
            what.push(format!("{} of {} packets of the client reach the broker", s.up_ok, s.up.len()));
        }
        if all_down && s.down_ok != s.down.len() {
            what.push(format!("{} of {} packets of the broker reach the client", s.down_ok, s.down.len()));
        }
        if !s.b.as_ref().is_none_or(|b| b.eof) {
            what.push("the broker's connection is not closed".into());
        }
        if !s.c.eof {
            what.push("the client's connection is not closed".into());
        }
        return Err(format!("after {:?}: {}", end, what.join(", ")));
    }
    if !ss[0].c.got.is_empty() && !matches!(end, BJunk | Rst) {
        return Err("the client gets part of a packet".into());
    }
    l.outcome(&(ss[0].up.len(), ss[0].down.len(), ss[0].down_ok, end as u8, ss.len()));
    Ok(cut)
}

/// Runs one case on this worker's pair, with a fresh pair after anything went wrong.
fn one<T>(ctx: &Ctx, fl: &mut Option<Fleet>, c: &[u8], what: &str, f: impl FnOnce(&mut Fleet) -> Result<T, String>) -> Option<T> {
    case(c);
    let mut x = fl.take().unwrap_or_else(Fleet::new);
    let mut r = f(&mut x);
    x.run();
    if r.is_ok() && !(x.r.alive() && x.s.alive()) {
        r = Err("a proxy process is gone".into());
    }
    match r {
        Ok(v) => {
            *fl = Some(x);
            Some(v)
        }
        Err(e) if e.ends_with(GIVEN_UP) => None,
        Err(e) => {
            FAILED.store(true, Relaxed);
            let sig: String = e.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim().into();
            ctx.fail(&format!("{}: {}", what, sig), e, c);
            ctx.stop.store(true, Relaxed);
            None
        }
    }
}

thread_local! {
    static FLEET: std::cell::RefCell<Option<Fleet>> = const { std::cell::RefCell::new(None) };
}
fn with<T>(ctx: &Ctx, c: &[u8], what: &str, f: impl FnOnce(&mut Fleet) -> Result<T, String>) -> Option<T> {
    FLEET.with(|x| one(ctx, &mut x.borrow_mut(), c, what, f))
}

fn hist_case(ctx: &Ctx, cfg: usize, h: &[u8], l: &mut Local) -> Option<usize> {
    l.evals += 1;
    let (ver, b) = ([5u8, 4][cfg % 2], BEGIN[cfg / 2]);
    let m: Vec<M> = h.iter().map(|&x| MOVES[x as usize]).collect();
    let mut c = vec![0u8, cfg as u8];
    c.extend(h);
    with(ctx, &c, &format!("v{} {:?} {:?}", ver, b, m), |f| history(f, ver, b, &m, l)).flatten()
}

/// A session that carries `pk` one way, in segments of `chunk` bytes (0: all at once).
fn bulk(f: &mut Fleet, ver: u8, down: bool, chunk: usize, pk: &[Vec<u8>], l: &mut Local) -> Result<(), String> {
    let mut ss = vec![f.open(ver)];
    begin(f, ver, B::Plain, &mut ss, l)?;
    let all: Vec<u8> = pk.concat();
    if down {
        ss[0].down.extend(pk.iter().cloned());
    } else {
        ss[0].up.extend(pk.iter().cloned());
    }
    for c in all.chunks(if chunk == 0 { all.len() } else { chunk }) {
        if down {
            ss[0].b.as_mut().unwrap().send(c);
        } else {
            ss[0].c.send(c);
        }
        f.pump(&mut ss)?;
        if chunk != 0 && chunk < 16 {
            f.quiet();
        }
        l.steps += 1;
    }
    f.settle(&mut ss, l)?;
    // and out
    if down {
        ss[0].b.as_mut().unwrap().fin = true;
    } else {
        ss[0].c.fin = true;
    }
    if !f.until(&mut ss, l, |ss| ss[0].c.eof && ss[0].b.as_ref().unwrap().eof)? {
        return Err("not closed at the end".into());
    }
    l.outcome(&(ver, down, chunk, pk.len()));
    Ok(())
}

fn plain_packets(ver: u8) -> Vec<Vec<u8>> {
    let v = if ver == 5 { alpha::packets5(false) } else { alpha::packets3(false) };
    v.iter().filter(|p| !matches!(p, P::Connect5(_) | P::Connect3(_) | P::Disconnect5(_) | P::Disconnect3(_))).map(refenc).collect()
}
fn connects(ver: u8) -> Vec<P> {
    let v = if ver == 5 { alpha::packets5(true) } else { alpha::packets3(true) };
    v.into_iter().filter(|p| matches!(p, P::Connect5(_) | P::Connect3(_))).collect()
}
fn tagged(p: &P, tag: u16) -> Vec<u8> {
    let mut p = p.clone();
    match &mut p {
        P::Connect5(c) => c.keep_alive = tag,
        P::Connect3(c) => c.keep_alive = tag,
        _ => unreachable!(),
    }
    refenc(&p)
}
/// One CONNECT, whole or cut at `cut`, with a packet right behind it.
fn connect_case(f: &mut Fleet, p: &P, cut: usize, l: &mut Local) -> Result<(), String> {
    let ver = if matches!(p, P::Connect5(_)) { 5 } else { 4 };
    let mut ss = vec![f.open(ver)];
    let w = tagged(p, ss[0].tag);
    let n = ss[0].next();
    let q = publish(ver, "a", 1, n, 2);
    let mut all = w.clone();
    all.extend(&q);
    ss[0].up.extend([w, q]);
    let cut = cut.min(all.len());
    ss[0].c.send(&all[..cut]);
    if cut > 0 && cut < all.len() {
        f.quiet();
    }
    ss[0].c.send(&all[cut..]);
    f.settle(&mut ss, l)?;
    ss[0].broker_sends(vec![connack(ver)]);
    f.settle(&mut ss, l)?;
    ss[0].c.fin = true;
    if !f.until(&mut ss, l, |ss| ss[0].c.eof && ss[0].b.as_ref().unwrap().eof)? {
        return Err("not closed at the end".into());
    }
    l.outcome(&(ver, cut, all.len()));
    Ok(())
}

/// What a client may send instead of a CONNECT: the connection ends and the broker sees no packet.
fn bad_starts() -> Vec<(Vec<u8>, bool)> {
    vec![
        (vec![], true),
        (vec![0x10], true),
        (connect(5, "x", 7)[..9].to_vec(), true),
        (publish(5, "a", 0, 1, 9), false),
        (publish(4, "a", 0, 1, 9), true),
        (vec![0xff; 16], false),
        (b"GET / HTTP/1.1\r\nHost: x\r\n\r\n".to_vec(), false),
        (vec![0x10, 0x0c, 0, 4, b'M', b'Q', b'T', b'T', 9, 2, 0, 5, 0, 0], false),
        (vec![0xc0, 0], true),
    ]
}
fn bad_start(f: &mut Fleet, b: &[u8], fin: bool, l: &mut Local) -> Result<(), String> {
    let mut ss = vec![f.open(5)];
    ss[0].c.send(b);
    ss[0].c.fin = fin;
    if !f.until(&mut ss, l, |ss| ss[0].c.eof)? {
        return Err(format!("a client that starts with {} is kept", hex(b)));
    }
    if let Some(b) = &ss[0].b {
        return Err(format!("the broker gets {:?}", b.frames));
    }
    l.outcome(&(b, fin));
    Ok(())
}

/// Processes and the broker going away, and coming back.
const FAULTS: [&str; 12] = [
    "broker away", "broker closes at once", "s-proxy away", "s-proxy killed", "r-proxy killed", "s-proxy restarted", "broker back", "bursts",
    "a second r-proxy", "client does not read", "broker does not read", "300 clients",
];
fn fault(f: &mut Fleet, ver: u8, k: usize, l: &mut Local) -> Result<(), String> {
    let gone = |f: &mut Fleet, l: &mut Local, why: &str| -> Result<(), String> {
        let mut ss = vec![f.open(ver)];
        let t = ss[0].tag;
        ss[0].client_sends(vec![connect(ver, "dev", t)]);
        if !f.until(&mut ss, l, |ss| ss[0].c.eof)? {
            return Err(format!("{}: the client is kept waiting", why));
        }
        Ok(())
    };
    let works = |f: &mut Fleet, l: &mut Local| history(f, ver, B::Plain, &[Pub, BPub, Disc], l).map(|_| ()).map_err(|e| format!("after {}: {}", FAULTS[k], e));
    match k {
        0 | 6 => {
            f.listener = None;
            gone(f, l, "no broker")?;
            if k == 6 {
                let x = TcpListener::bind(("127.0.0.1", f.bport)).map_err(|e| e.to_string())?;
                x.set_nonblocking(true).unwrap();
                f.listener = Some(x);
                works(f, l)?;
            }
        }
        1 => {
            let mut ss = vec![f.open(ver)];
            let t = ss[0].tag;
            ss[0].client_sends(vec![connect(ver, "dev", t)]);
            if !f.until(&mut ss, l, |ss| ss[0].b.is_some())? {
                return Err("no connection at the broker".into());
            }
            ss[0].b.as_mut().unwrap().fin = true;
            if !f.until(&mut ss, l, |ss| ss[0].c.eof && ss[0].b.as_ref().unwrap().eof)? {
                return Err("the broker closes at once, the client is kept".into());
            }
        }
        2 | 5 => {
            f.s.kill();
            gone(f, l, "no s-proxy")?;
            if k == 5 {
                if !f.s.again() {
                    return Err("s-proxy does not come back".into());
                }
                works(f, l)?;
            }
        }
        3 | 4 => {
            let mut ss = vec![f.open(ver)];
            begin(f, ver, B::Plain, &mut ss, l)?;
            if k == 3 {
                f.s.kill();
            } else {
                f.r.kill();
            }
            if !f.until(&mut ss, l, |ss| ss[0].c.eof && ss[0].b.as_ref().unwrap().eof)? {
                return Err(format!("{}: client closed {}, broker closed {}", FAULTS[k], ss[0].c.eof, ss[0].b.as_ref().unwrap().eof));
            }
            let ok = if k == 3 { f.s.again() } else { f.r.again() };
            if !ok {
                return Err("does not come back".into());
            }
            works(f, l)?;
        }
        8 => {
            // two relays in front of one s-proxy, with clients of the same name
            let mut a = vec![f.open(ver)];
            begin(f, ver, B::Plain, &mut a, l)?;
            let mut r2 = Proc::start("r-proxy", f.s.port);
            std::mem::swap(&mut f.r, &mut r2);
            let b = f.open(ver);
            a.insert(0, b);
            begin(f, ver, B::Plain, &mut a, l)?;
            for i in [0, 1, 1, 0] {
                let n = a[i].next();
                a[i].client_sends(vec![publish(ver, "u", 1, n, 3)]);
                f.settle(&mut a, l)?;
                a[i].broker_sends(vec![publish(ver, "d", 1, n, 3)]);
                f.settle(&mut a, l)?;
            }
            for i in [1, 0] {
                a[i].c.fin = true;
                if !f.until(&mut a, l, |a| a[i].c.eof && a[i].b.as_ref().unwrap().eof)? {
                    return Err("not closed at the end".into());
                }
                if i == 1 {
                    let n = a[0].next();
                    a[0].client_sends(vec![publish(ver, "u", 1, n, 3)]);
                    f.settle(&mut a[..1], l)?;
                }
            }
        }
        9 | 10 => {
            // one side of three sessions stops reading while the other side floods it; the other direction of
            // these sessions, and sessions beside them, go on
            let mut a: Vec<Sess> = vec![];
            for _ in 0..4 {
                let s = f.open(ver);
                a.insert(0, s);
                begin(f, ver, B::Plain, &mut a, l)?;
            }
            for s in &mut a[..3] {
                if k == 9 {
                    s.c.hold = true;
                } else {
                    s.b.as_mut().unwrap().hold = true;
                }
                for _ in 0..if k == 9 { 600 } else { 8000 } {
                    let n = s.next();
                    let p = vec![publish(ver, "flood", 0, n, if k == 9 { 60_000 } else { 4_000 })];
                    if k == 9 {
                        s.broker_sends(p)
                    } else {
                        s.client_sends(p)
                    }
                }
            }
            // as much as the buffers take
            let left = |a: &[Sess]| a.iter().map(|s| s.c.left() + s.b.as_ref().unwrap().left()).sum::<usize>();
            let (mut last, mut same) = (usize::MAX, 0);
            while same < 15 {
                f.pump(&mut a)?;
                let n = left(&a);
                same = if n == last { same + 1 } else { 0 };
                last = n;
                real_sleep_ms(10);
            }
            if last == 0 {
                return Err("the flood fits into the buffers".into());
            }
            for i in [3, 0, 1, 2] {
                let n = a[i].next();
                if i == 3 || k == 9 {
                    a[i].client_sends(vec![publish(ver, "past", 0, n, 1)]);
                    if !f.until(&mut a, l, |a| a[i].up_ok == a[i].up.len())? {
                        return Err(format!("{}: a packet to the broker is held up, {}", FAULTS[k], if i == 3 { "in another session" } else { "in the other direction" }));
                    }
                }
                if i == 3 || k == 10 {
                    a[i].broker_sends(vec![publish(ver, "past", 0, n, 1)]);
                    if !f.until(&mut a, l, |a| a[i].down_ok == a[i].down.len())? {
                        return Err(format!("{}: a packet to the client is held up, {}", FAULTS[k], if i == 3 { "in another session" } else { "in the other direction" }));
                    }
                }
            }
            for s in &mut a {
                s.c.hold = false;
                s.b.as_mut().unwrap().hold = false;
            }
            f.settle(&mut a, l)?;
        }
        11 => {
            let mut a: Vec<Sess> = vec![];
            for _ in 0..300 {
                let s = f.open(ver);
                a.insert(0, s);
                begin(f, ver, B::Plain, &mut a[..1], l)?;
            }
            for i in 0..300 {
                let n = a[i].next();
                a[i].client_sends(vec![publish(ver, "u", 1, n, 3)]);
                a[299 - i].broker_sends(vec![publish(ver, "d", 1, n, 3)]);
            }
            f.settle(&mut a, l)?;
            for s in &mut a {
                s.c.fin = true;
            }
            if !f.until(&mut a, l, |a| a.iter().all(|s| s.c.eof && s.b.as_ref().unwrap().eof))? {
                return Err("not closed at the end".into());
            }
        }
        _ => {
            // both ends fill every buffer while s-proxy is stopped
            let mut ss = vec![f.open(ver)];
            begin(f, ver, B::Plain, &mut ss, l)?;
            for n in 0..2500 {
                if n % 500 == 250 {
                    let on = !f.s.stopped;
                    f.s.stop(on);
                }
                if n % 700 == 300 {
                    let on = !f.r.stopped;
                    f.r.stop(on);
                }
                ss[0].client_sends(vec![publish(ver, "u", 1, n, (n % 5) as usize * 40)]);
                ss[0].broker_sends(vec![publish(ver, "d", 1, n, (n % 7) as usize * 40)]);
                f.pump(&mut ss)?;
            }
            f.run();
            f.settle(&mut ss, l)?;
            ss[0].c.fin = true;
            if !f.until(&mut ss, l, |ss| ss[0].c.eof && ss[0].b.as_ref().unwrap().eof)? {
                return Err("not closed at the end".into());
            }
        }
    }
    l.outcome(&(ver, k));
    // a pair that lost its broker is of no more use
    Ok(())
}
fn fault_case(ctx: &Ctx, ver: u8, k: usize, l: &mut Local) {
    l.evals += 1;
    let c = [3, ver, k as u8];
    FLEET.with(|x| *x.borrow_mut() = None);
    with(ctx, &c, &format!("v{} {}", ver, FAULTS[k]), |f| {
        let r = fault(f, ver, k, l);
        // processes killed on purpose
        if f.s.c.is_none() {
            f.s.again();
        }
        r
    });
    FLEET.with(|x| *x.borrow_mut() = None);
}

fn runs(ctx: &Ctx, c: &[u8], l: &mut Local) {
    match c[0] {
        0 => {
            hist_case(ctx, c[1] as usize, &c[2..], l);
        }
        1 => {
            l.evals += 1;
            let (ver, down, chunk) = (c[1], c[2] != 0, u32::from_le_bytes(c[3..7].try_into().unwrap()) as usize);
            let pk = plain_packets(ver);
            let small: Vec<Vec<u8>> = alpha::shapes(ver).iter().filter(|p| !matches!(p, P::Connect5(_) | P::Connect3(_) | P::Disconnect5(_) | P::Disconnect3(_))).map(refenc).collect();
            let pk = if chunk != 0 && chunk < 16 { &small } else { &pk };
            with(ctx, c, &format!("v{} every packet, segments of {}", ver, chunk), |f| bulk(f, ver, down, chunk, pk, l));
        }
        2 => {
            l.evals += 1;
            let i = u16::from_le_bytes([c[2], c[3]]) as usize;
            let cut = u32::from_le_bytes(c[4..8].try_into().unwrap()) as usize;
            let v = connects(c[1]);
            with(ctx, c, &format!("v{} CONNECT {} cut at {}", c[1], i, cut), |f| connect_case(f, &v[i], cut, l));
        }
        3 => fault_case(ctx, c[1], c[2] as usize, l),
        4 => {
            l.evals += 1;
            let (b, fin) = &bad_starts()[c[1] as usize];
            with(ctx, c, &format!("start {}", c[1]), |f| bad_start(f, b, *fin, l));
        }
        _ => {}
    }
}

pub fn g02(ctx: &Ctx) {
    ctx.note("rule", "the r-proxy and s-proxy binaries of the tree as processes between a scripted client and broker; every history of the moves to the stated depth, for each way a session may begin; each proxy stopped or running at every step; the packets that come out at either end and the closes are compared with what went in");
    ctx.note("moves", format!("{:?}", MOVES));
    let mut cases: Vec<Vec<u8>> = vec![];
    for i in 0..bad_starts().len() {
        cases.push(vec![4, i as u8]);
    }
    for ver in [5u8, 4] {
        for k in 0..FAULTS.len() {
            cases.push(vec![3, ver, k as u8]);
        }
        for down in [0, 1] {
            for chunk in [0u32, 1, 2, 3, 7, 1460, 16383, 16384, 16385] {
                let mut c = vec![1, ver, down];
                c.extend(chunk.to_le_bytes());
                cases.push(c);
            }
        }
        let v = connects(ver);
        ctx.note(&format!("connects_v{}", ver), v.len());
        for (i, p) in v.iter().enumerate() {
            let n = tagged(p, 1).len();
            // a packet larger than what the relay's peer accepts in one message is a limit, not a case
            if n > 1 << 20 {
                continue;
            }
            let every = i < 2 || (ctx.thorough && n < 400);
            let cuts: Vec<usize> = if every { (0..n + 12).collect() } else { vec![0, n.saturating_sub(1).min(2000), n] };
            for cut in cuts {
                let mut c = vec![2, ver];
                c.extend((i as u16).to_le_bytes());
                c.extend((cut as u32).to_le_bytes());
                cases.push(c);
            }
        }
    }
    ctx.note("single_cases", cases.len());
    let n = cases.len();
    ctx.par(n, |i, l| runs(ctx, &cases[i], l));
    let cfgs = 2 * BEGIN.len();
    for d in 1..=if ctx.thorough { 4 } else { 3 } {
        if ctx.stopped() || !ctx.violations.lock().unwrap().is_empty() {
            break;
        }
        // the deepest layer for the two plainest beginnings only
        let c = if d < 3 || (ctx.thorough && d == 3) { cfgs } else { 4 };
        histories_pruned(ctx, c, MOVES.len(), d, d.min(2), |cfg, h, l| hist_case(ctx, cfg, h, l));
        ctx.note(&format!("depth_{}_beginnings", d), c);
    }
}
pub fn g02_replay(ctx: &Ctx, c: &[u8]) {
    let mut l = Local::new();
    runs(ctx, c, &mut l);
    FLEET.with(|x| *x.borrow_mut() = None);
    ctx.merge(l);
}
