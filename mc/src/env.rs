//! Owned nondeterminism: virtual monotonic/real clocks and deterministic randomness per thread.
//! The executable's own `clock_gettime`/`getrandom` take the place of libc's for std, tokio, rustls, quinn.
use std::cell::Cell;
thread_local! {
    static VNOW: Cell<u64> = const { Cell::new(0) };   // 0 = real time, else virtual ns
    static RNG: Cell<u64> = const { Cell::new(0) };    // 0 = real randomness
}
static GLOBAL_V: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub const T0: u64 = 1_000_000_000_000_000; // virtual epoch: 10^6 s, far from zero so that subtraction works

pub fn vclock_on() {
    VNOW.with(|v| v.set(T0));
}
pub fn vclock_off() {
    VNOW.with(|v| v.set(0));
}
pub fn vadvance_ms(ms: u64) {
    VNOW.with(|v| v.set(v.get() + ms * 1_000_000));
}
pub fn vnow_ms() -> u64 {
    VNOW.with(|v| (v.get() - T0) / 1_000_000)
}
pub fn vset_ns(ns: u64) {
    VNOW.with(|v| v.set(T0 + ns));
}
pub fn rng_seed(s: u64) {
    RNG.with(|r| r.set(s | 1));
}
pub fn rng_off() {
    RNG.with(|r| r.set(0));
}
#[allow(dead_code)]
pub fn global_v() -> &'static std::sync::atomic::AtomicU64 {
    &GLOBAL_V
}

pub fn real_sleep_ms(ms: u64) {
    unsafe {
        let ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
        libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<libc::timespec>());
    }
}
pub fn real_now_ms() -> u64 {
    unsafe {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let v = VNOW.try_with(|v| v.get()).unwrap_or(0);
    if v != 0 && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_BOOTTIME) {
        (*ts).tv_sec = (v / 1_000_000_000) as i64;
        (*ts).tv_nsec = (v % 1_000_000_000) as i64;
        return 0;
    }
    if v != 0 && clk == libc::CLOCK_REALTIME {
        // a fixed wall-clock date (2026-01-01) plus virtual time, so certificates stay valid
        let r = 1_767_225_600_000_000_000u64 + (v - T0);
        (*ts).tv_sec = (r / 1_000_000_000) as i64;
        (*ts).tv_nsec = (r % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let r = RNG.try_with(|r| r.get()).unwrap_or(0);
    if r != 0 {
        let mut x = r;
        let p = buf as *mut u8;
        for i in 0..len {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *p.add(i) = (x >> 24) as u8;
        }
        RNG.with(|c| c.set(x | 1));
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}

/// A network in memory for this thread: every TCP connection it makes goes to a socket pair, whose other end is kept here.
pub struct Net {
    pub refuse: bool,
    /// Some: connections do not come about until the server wants them to, either already on the level of TCP or after it.
    pub hang: Option<Hang>,
    pub attempts: usize,
    pub fresh: Vec<i32>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Hang {
    Connect,
    Later,
}
thread_local! {
    static NET: std::cell::RefCell<Option<Net>> = const { std::cell::RefCell::new(None) };
}
pub fn net<T>(f: impl FnOnce(&mut Option<Net>) -> T) -> T {
    NET.with(|n| f(&mut n.borrow_mut()))
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
    let r = NET.try_with(|n| {
        let Ok(mut n) = n.try_borrow_mut() else { return None };
        let n = n.as_mut()?;
        if addr.is_null() || (*addr).sa_family as i32 != libc::AF_INET {
            return None;
        }
        n.attempts += 1;
        if n.refuse {
            return Some(libc::ECONNREFUSED);
        }
        let mut p = [0; 2];
        if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) != 0 {
            return Some(libc::EMFILE);
        }
        libc::dup3(p[0], fd, libc::O_CLOEXEC);
        libc::close(p[0]);
        n.fresh.push(p[1]);
        if n.hang == Some(Hang::Connect) {
            // not writable before somebody reads it
            let b = [0u8; 4096];
            while libc::write(fd, b.as_ptr() as *const _, b.len()) > 0 {}
            return Some(libc::EINPROGRESS);
        }
        Some(0)
    });
    match r.ok().flatten() {
        None => libc::syscall(libc::SYS_connect, fd, addr, len) as libc::c_int,
        Some(0) => 0,
        Some(e) => {
            *libc::__errno_location() = e;
            -1
        }
    }
}

fn in_memory() -> bool {
    NET.try_with(|n| n.try_borrow().is_ok_and(|n| n.is_some())).unwrap_or(false)
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: libc::c_int, level: libc::c_int, name: libc::c_int, v: *const libc::c_void, len: libc::socklen_t) -> libc::c_int {
    if matches!(level, libc::IPPROTO_TCP | libc::IPPROTO_IP) && in_memory() {
        return 0;
    }
    if level == libc::SOL_UDP && in_memory() {
        *libc::__errno_location() = libc::ENOPROTOOPT;
        return -1;
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, name, v, len) as libc::c_int
}

/// The only peer datagrams go to and come from.
pub const PEER: u16 = 14567;
unsafe fn to_in(addr: *mut libc::sockaddr, len: *mut libc::socklen_t, port: u16) {
    if addr.is_null() || len.is_null() || (*len as usize) < size_of::<libc::sockaddr_in>() {
        return;
    }
    let mut a: libc::sockaddr_in = std::mem::zeroed();
    a.sin_family = libc::AF_INET as u16;
    a.sin_port = port.to_be();
    a.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr as *mut u8, size_of::<libc::sockaddr_in>());
    *len = size_of::<libc::sockaddr_in>() as _;
}
unsafe fn is_in(addr: *const libc::sockaddr) -> bool {
    !addr.is_null() && (*addr).sa_family as i32 == libc::AF_INET
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn bind(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
    let r = NET.try_with(|n| {
        let Ok(mut n) = n.try_borrow_mut() else { return None };
        let n = n.as_mut()?;
        if !is_in(addr) {
            return None;
        }
        n.attempts += 1;
        if n.refuse {
            return Some(libc::EADDRNOTAVAIL);
        }
        let mut p = [0; 2];
        if libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) != 0 {
            return Some(libc::EMFILE);
        }
        libc::dup3(p[0], fd, libc::O_CLOEXEC);
        libc::close(p[0]);
        n.fresh.push(p[1]);
        Some(0)
    });
    match r.ok().flatten() {
        None => libc::syscall(libc::SYS_bind, fd, addr, len) as libc::c_int,
        Some(0) => 0,
        Some(e) => {
            *libc::__errno_location() = e;
            -1
        }
    }
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: libc::c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> libc::c_int {
    let had = if len.is_null() { 0 } else { *len };
    let r = libc::syscall(libc::SYS_getsockname, fd, addr, len) as libc::c_int;
    if r == 0 && in_memory() && (*addr).sa_family as i32 == libc::AF_UNIX {
        *len = had;
        to_in(addr, len, 4444);
    }
    r
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: libc::c_int, m: *const libc::msghdr, flags: libc::c_int) -> libc::ssize_t {
    if in_memory() && is_in((*m).msg_name as *const _) {
        let mut c = *m;
        c.msg_name = std::ptr::null_mut();
        c.msg_namelen = 0;
        c.msg_control = std::ptr::null_mut();
        c.msg_controllen = 0;
        return libc::syscall(libc::SYS_sendmsg, fd, &c, flags | libc::MSG_NOSIGNAL) as libc::ssize_t;
    }
    libc::syscall(libc::SYS_sendmsg, fd, m, flags) as libc::ssize_t
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: libc::c_int, b: *const libc::c_void, n: libc::size_t, flags: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::ssize_t {
    if in_memory() && is_in(addr) {
        return libc::syscall(libc::SYS_sendto, fd, b, n, flags | libc::MSG_NOSIGNAL, 0, 0) as libc::ssize_t;
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, flags, addr, len) as libc::ssize_t
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: libc::c_int, b: *mut libc::c_void, n: libc::size_t, flags: libc::c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> libc::ssize_t {
    let had = if len.is_null() { 0 } else { *len };
    let r = libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, addr, len) as libc::ssize_t;
    if r >= 0 && had > 0 && in_memory() {
        *len = had;
        to_in(addr, len, PEER);
    }
    r
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn recvmmsg(fd: libc::c_int, v: *mut libc::mmsghdr, n: libc::c_uint, flags: libc::c_int, t: *mut libc::timespec) -> libc::c_int {
    let mem = in_memory();
    for i in 0..if mem { n as usize } else { 0 } {
        (*v.add(i)).msg_hdr.msg_controllen = 0;
    }
    let r = libc::syscall(libc::SYS_recvmmsg, fd, v, n, flags, t) as libc::c_int;
    for i in 0..if mem { r.max(0) as usize } else { 0 } {
        let h = &mut (*v.add(i)).msg_hdr;
        h.msg_controllen = 0;
        h.msg_namelen = size_of::<libc::sockaddr_storage>() as _;
        to_in(h.msg_name as *mut _, &mut h.msg_namelen, PEER);
    }
    r
}
