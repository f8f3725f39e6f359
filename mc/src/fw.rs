//! Exploration framework: work distribution, violation collection, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub case: Vec<u8>,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub evals: AtomicU64,
    pub steps: AtomicU64,
    pub foreign: AtomicU64,
    pub violations: Mutex<BTreeMap<String, Violation>>,
    pub known: Vec<(String, String)>,
    pub outcomes: Mutex<HashSet<u64>>,
    pub states: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<BTreeMap<String, String>>,
    pub stop: AtomicBool,
}

pub struct Local {
    pub outcomes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub evals: u64,
    pub steps: u64,
    /// branches ended by what violates another property
    pub foreign: u64,
}

impl Local {
    pub fn new() -> Self {
        Local { outcomes: HashSet::new(), states: HashSet::new(), evals: 0, steps: 0, foreign: 0 }
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(hash(t));
        }
    }
    pub fn state<T: Hash>(&mut self, t: &T) {
        if self.states.len() < 2_000_000 {
            self.states.insert(hash(t));
        }
    }
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub const NT: usize = 8;

impl Ctx {
    pub fn new(id: &str, thorough: bool, known: Vec<(String, String)>) -> Self {
        Ctx {
            id: id.into(),
            thorough,
            evals: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            foreign: AtomicU64::new(0),
            violations: Mutex::new(BTreeMap::new()),
            known,
            outcomes: Mutex::new(HashSet::new()),
            states: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
        }
    }
    pub fn fail(&self, sig: &str, detail: String, case: &[u8]) {
        let mut v = self.violations.lock().unwrap();
        match v.get_mut(sig) {
            Some(o) => {
                if case.len() < o.case.len() {
                    o.case = case.to_vec();
                    o.detail = detail;
                }
            }
            None => {
                v.insert(sig.into(), Violation { sig: sig.into(), detail, case: case.to_vec() });
            }
        }
        let unknown = v.keys().filter(|s| !self.is_known(s)).count();
        if unknown >= 40 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|(s, _)| s == sig)
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(s());
        }
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.notes.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// Runs jobs 0..n on NT threads.  Each job gets a thread-local accumulator.
    pub fn par(&self, n: usize, f: impl Fn(usize, &mut Local) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..NT {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        slot_bind(t);
                        let mut l = Local::new();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            f(i, &mut l);
                        }
                        slot_idle();
                        self.merge(l);
                    })
                    .unwrap();
            }
        });
    }
    pub fn merge(&self, l: Local) {
        self.evals.fetch_add(l.evals, Relaxed);
        self.steps.fetch_add(l.steps, Relaxed);
        self.foreign.fetch_add(l.foreign, Relaxed);
        self.outcomes.lock().unwrap().extend(l.outcomes);
        self.states.lock().unwrap().extend(l.states);
    }
}

// ---- current-case slots (shared file, read by the supervisor after a crash) ----
const SLOT: usize = 4096;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
static SEQ: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static BUSY: [AtomicBool; 64] = [const { AtomicBool::new(false) }; 64];
thread_local! {
    static MY: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static IN_GUARD: Cell<bool> = const { Cell::new(false) };
}

pub fn slots_init(path: &str) {
    use std::ffi::CString;
    unsafe {
        let p = CString::new(path).unwrap();
        let fd = libc::open(p.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o644);
        assert!(fd >= 0);
        libc::ftruncate(fd, (64 * SLOT) as i64);
        let m = libc::mmap(std::ptr::null_mut(), 64 * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(m != libc::MAP_FAILED);
        SLOT_BASE.store(m as usize, SeqCst);
    }
}
pub fn slot_bind(t: usize) {
    MY.with(|m| m.set(t));
}
pub fn slot_idle() {
    let t = MY.with(|m| m.get());
    if t < 64 {
        BUSY[t].store(false, Relaxed);
        let b = SLOT_BASE.load(Relaxed);
        if b != 0 {
            unsafe { std::ptr::write_unaligned((b + t * SLOT) as *mut u32, 0) }
        }
    }
}
/// Announce the case about to run on this thread.
pub fn case(bytes: &[u8]) {
    let t = MY.with(|m| m.get());
    if t >= 64 {
        return;
    }
    let b = SLOT_BASE.load(Relaxed);
    if b != 0 {
        let n = bytes.len().min(SLOT - 4);
        unsafe {
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), (b + t * SLOT + 4) as *mut u8, n);
            std::ptr::write_unaligned((b + t * SLOT) as *mut u32, n as u32 + 1);
        }
    }
    SEQ[t].fetch_add(1, Relaxed);
    BUSY[t].store(true, Relaxed);
}
pub fn slot_read(t: usize) -> Vec<u8> {
    let b = SLOT_BASE.load(Relaxed);
    unsafe {
        let n = std::ptr::read_unaligned((b + t * SLOT) as *const u32) as usize;
        if n == 0 || n > SLOT - 3 {
            return vec![];
        }
        std::slice::from_raw_parts((b + t * SLOT + 4) as *const u8, n - 1).to_vec()
    }
}

/// Watchdog: a case that makes no progress for `secs`, or runaway memory, ends the run through `f`.
pub fn watchdog(secs: u64, f: impl Fn(&str, Vec<u8>) + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = [(0u64, 0u64); 64];
        loop {
            crate::env::real_sleep_ms(1000);
            for t in 0..64 {
                let s = SEQ[t].load(Relaxed);
                if BUSY[t].load(Relaxed) && last[t].0 == s {
                    last[t].1 += 1;
                    if last[t].1 >= secs {
                        f("hang", slot_read(t));
                    }
                } else {
                    last[t] = (s, 0);
                }
            }
            if let Ok(m) = std::fs::read_to_string("/proc/self/statm") {
                let rss: u64 = m.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0) * 4096;
                if rss > 14 << 30 {
                    let c = (0..64).map(slot_read).find(|c| !c.is_empty()).unwrap_or_default();
                    f("runaway memory", c);
                }
            }
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}", short(l.file()))).unwrap_or_default();
        let guarded = IN_GUARD.with(|g| g.get());
        if !guarded {
            eprintln!("harness panic: {} at {:?}", msg, info.location());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} @ {}", msg, loc)));
    }));
}
fn short(f: &str) -> &str {
    f.find("/ws/").map(|i| &f[i + 4..]).unwrap_or(f)
}

/// Runs code under test; a panic becomes Err(message @ file).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_GUARD.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(was));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}
/// Panic message with digits removed, so that it can serve as a signature.
pub fn sigify(s: &str) -> String {
    let mut out = String::new();
    let mut prev = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() {
            if !prev {
                out.push('N');
            }
            prev = true;
        } else {
            prev = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 600 {
        return format!("{}...({} bytes)", hex(&b[..300]), b.len());
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// All tuples over 0..k of length `depth`, split into jobs by a prefix of length `split`.
pub fn histories(ctx: &Ctx, configs: usize, k: usize, depth: usize, split: usize, run: impl Fn(usize, &[u8], &mut Local) + Sync) {
    let split = split.min(depth);
    let np = k.pow(split as u32);
    ctx.par(configs * np, |job, l| {
        let cfg = job / np;
        let mut p = job % np;
        let mut h = vec![0u8; depth];
        for i in (0..split).rev() {
            h[i] = (p % k) as u8;
            p /= k;
        }
        loop {
            if ctx.stopped() {
                return;
            }
            run(cfg, &h, l);
            let mut i = depth;
            loop {
                if i == split {
                    return;
                }
                i -= 1;
                if (h[i] as usize) + 1 < k {
                    h[i] += 1;
                    for x in &mut h[i + 1..] {
                        *x = 0;
                    }
                    break;
                }
            }
        }
    });
}

/// As `histories`, but `run` may name the position whose choice made the history pointless: every other
/// history with the same choices up to there is skipped.
pub fn histories_pruned(ctx: &Ctx, configs: usize, k: usize, depth: usize, split: usize, run: impl Fn(usize, &[u8], &mut Local) -> Option<usize> + Sync) {
    let split = split.min(depth);
    let np = k.pow(split as u32);
    ctx.par(configs * np, |job, l| {
        let cfg = job / np;
        let mut p = job % np;
        let mut h = vec![0u8; depth];
        for i in (0..split).rev() {
            h[i] = (p % k) as u8;
            p /= k;
        }
        loop {
            if ctx.stopped() {
                return;
            }
            // the position to change next
            let mut i = match run(cfg, &h, l) {
                None => depth,
                Some(i) => (i + 1).min(depth),
            };
            loop {
                if i <= split {
                    return;
                }
                i -= 1;
                if (h[i] as usize) + 1 < k {
                    h[i] += 1;
                    for x in &mut h[i + 1..] {
                        *x = 0;
                    }
                    break;
                }
            }
        }
    });
}
