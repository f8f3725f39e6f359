//! Q01: the priority queue against a list model.
use crate::fw::*;
use flowsdk::priority_queue::PriorityQueue;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashSet;
use std::fmt::Debug;
use std::sync::Mutex;

const CAPS: [usize; 6] = [0, 1, 2, 3, 4, 100];

#[derive(Clone, Default)]
struct Model<P> {
    v: Vec<(P, u32)>, // arrival order
    cap: usize,
}
impl<P: Ord + Clone> Model<P> {
    fn best(&self) -> Option<usize> {
        let m = self.v.iter().map(|x| &x.0).max()?;
        self.v.iter().position(|x| &x.0 == m)
    }
    fn enqueue(&mut self, p: P, i: u32) {
        self.v.push((p, i));
        if self.v.len() > self.cap {
            let m = self.v.iter().map(|x| x.0.clone()).min().unwrap();
            let k = self.v.iter().position(|x| x.0 == m).unwrap();
            self.v.remove(k);
        }
    }
}

/// What the queue shows must be what the model holds.
fn look<P: Ord + Clone + Debug>(q: &PriorityQueue<P, u32>, m: &Model<P>) -> Result<(), String> {
    if q.len() != m.v.len() || q.is_empty() != m.v.is_empty() {
        return Err(format!("len {} is_empty {} with {} entries held", q.len(), q.is_empty(), m.v.len()));
    }
    let got = q.peek().map(|(p, i)| (p.clone(), *i));
    let want = m.best().map(|k| m.v[k].clone());
    if got != want {
        return Err(format!("peek gave {:?}, expected {:?}", got, want));
    }
    Ok(())
}

fn step<P: Ord + Clone + Debug>(q: &mut PriorityQueue<P, u32>, m: &mut Model<P>, prios: &[P], op: u8, n: &mut u32) -> Result<(), String> {
    match op as usize {
        o if o < prios.len() => {
            *n += 1;
            q.enqueue(prios[o].clone(), *n);
            m.enqueue(prios[o].clone(), *n);
        }
        o if o == prios.len() => {
            let want = m.best().map(|k| m.v.remove(k));
            let got = q.dequeue();
            if got != want {
                return Err(format!("dequeue gave {:?}, expected {:?}", got, want));
            }
        }
        _ => {
            q.clear();
            m.v.clear();
        }
    }
    look(q, m)
}

fn replayed<P: Ord + Clone + Debug>(cap: usize, prios: &[P], h: &[u8], l: &mut Local) -> Result<(PriorityQueue<P, u32>, Model<P>), (usize, String)> {
    let mut q = PriorityQueue::new(cap);
    let mut m = Model { v: vec![], cap };
    let mut n = 0;
    look(&q, &m).map_err(|e| (0, e))?;
    for (i, &op) in h.iter().enumerate() {
        l.steps += 1;
        step(&mut q, &mut m, prios, op, &mut n).map_err(|e| (i + 1, e))?;
    }
    Ok((q, m))
}

fn tmpdir() -> String {
    let d = format!("/tmp/mc-q01-{}", std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// Save, load, truncate: the file gives back exactly this queue or is refused.
fn persist<P: Ord + Clone + Debug + Serialize + DeserializeOwned>(cap: usize, prios: &[P], h: &[u8], l: &mut Local, deep: usize) -> Result<(), String> {
    let f = format!("{}/{:?}.json", tmpdir(), std::thread::current().id());
    let (q, m) = replayed(cap, prios, h, l).map_err(|e| e.1)?;
    // an older, longer file must be replaced, not overlaid
    std::fs::write(&f, vec![b'x'; 4096]).unwrap();
    q.save_to_file(&f).map_err(|e| format!("save failed: {}", e))?;
    look(&q, &m).map_err(|e| format!("saving changed the queue: {}", e))?;
    let bytes = std::fs::read(&f).unwrap();
    let k = prios.len() + 2;
    // every continuation of the loaded queue behaves as the original would
    for mut c in 0..k.pow(deep as u32) {
        let mut r = PriorityQueue::load_from_file(&f).map_err(|e| format!("load failed: {}", e))?;
        let mut mm = m.clone();
        let mut n = 1000;
        look(&r, &mm).map_err(|e| format!("loaded queue: {}", e))?;
        for _ in 0..deep {
            step(&mut r, &mut mm, prios, (c % k) as u8, &mut n).map_err(|e| format!("loaded queue: {}", e))?;
            c /= k;
        }
        while !mm.v.is_empty() || !r.is_empty() {
            step(&mut r, &mut mm, prios, prios.len() as u8, &mut n).map_err(|e| format!("loaded queue: {}", e))?;
        }
        l.evals += 1;
    }
    // a torn file is refused
    for cut in 0..bytes.len() {
        std::fs::write(&f, &bytes[..cut]).unwrap();
        match guard(|| PriorityQueue::<P, u32>::load_from_file(&f)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return Err(format!("a file cut after {} of {} bytes was loaded", cut, bytes.len())),
            Err(p) => return Err(format!("loading a torn file panicked: {}", p)),
        }
        l.evals += 1;
    }
    Ok(())
}

fn explore<P: Ord + Clone + Debug + Serialize + DeserializeOwned + Sync + Send + std::hash::Hash>(ctx: &Ctx, ty: u8, prios: &[P], depth: usize) {
    let seen = Mutex::new(HashSet::new());
    let deep = if ctx.thorough { 4 } else { 2 };
    histories(ctx, CAPS.len(), prios.len() + 2, depth, 3, |cfg, h, l| {
        let mut c = vec![ty, cfg as u8];
        c.extend(h);
        case(&c);
        l.evals += 1;
        let r = guard(|| replayed(CAPS[cfg], prios, h, l));
        match r {
            Err(p) => ctx.fail(&format!("panic {}", sigify(&p)), format!("capacity {} history {:?}: panic {}", CAPS[cfg], h, p), &c),
            Ok(Err((n, e))) => {
                c.truncate(2 + n);
                ctx.fail(&sigify(&e), format!("capacity {} history {:?}: {}", CAPS[cfg], &h[..n], e), &c)
            }
            Ok(Ok((_, m))) => {
                // items renumbered by arrival: the state
                let mut ids: Vec<u32> = m.v.iter().map(|x| x.1).collect();
                ids.sort();
                let st: Vec<(P, usize)> = m.v.iter().map(|x| (x.0.clone(), ids.iter().position(|i| *i == x.1).unwrap())).collect();
                l.state(&(ty, cfg, &st));
                l.outcome(&(ty, cfg, &m.v.iter().map(|x| x.1).collect::<Vec<_>>()));
                let new = seen.lock().unwrap().insert(hash(&(cfg, &st)));
                if new && m.v.len() <= if ctx.thorough { 6 } else { 4 } {
                    ctx.sample(|| format!("capacity {} history {:?} holds {:?}", CAPS[cfg], h, m.v));
                    if let Err(e) = guard(|| persist(CAPS[cfg], prios, h, l, deep)).unwrap_or_else(Err) {
                        c.push(255);
                        ctx.fail(&sigify(&e), format!("capacity {} history {:?}: {}", CAPS[cfg], h, e), &c);
                    }
                }
            }
        }
    });
}

/// A disk that is full must be reported by save, whatever the size of the queue.
fn full_disk(ctx: &Ctx, n: usize) {
    let mut q: PriorityQueue<u8, u32> = PriorityQueue::new(100_000);
    for i in 0..n {
        q.enqueue((i % 7) as u8, i as u32);
    }
    if q.save_to_file("/dev/full").is_ok() {
        ctx.fail("save to a full disk reported success", format!("save_to_file on a full device with {} entries returned Ok", n), &[9, (n > 0) as u8 + (n > 100) as u8]);
    }
}

pub fn q01(ctx: &Ctx) {
    let d = if ctx.thorough { 10 } else { 7 };
    explore::<u8>(ctx, 0, &[0, 7, 255], d);
    explore::<i32>(ctx, 1, &[i32::MIN, -1, 0], if ctx.thorough { 8 } else { 5 });
    explore::<String>(ctx, 2, &["".into(), "a".into(), "\"b\n".into()], if ctx.thorough { 7 } else { 5 });
    explore::<u8>(ctx, 3, &[0, 1, 2, 3, 4], if ctx.thorough { 7 } else { 5 });
    for n in [0, 1, 5000] {
        full_disk(ctx, n);
    }
    std::fs::remove_dir_all(tmpdir()).ok();
    ctx.note("bounds", format!("capacities {:?}; 3 priority types; all enqueue/dequeue/clear sequences of length {}; every reachable content of up to 5 entries saved, loaded, continued and torn at every byte", CAPS, d));
}

pub fn q01_replay(ctx: &Ctx, c: &[u8]) {
    if c[0] == 9 {
        return full_disk(ctx, [0, 1, 5000][c[1] as usize]);
    }
    fn one<P: Ord + Clone + Debug + Serialize + DeserializeOwned>(ctx: &Ctx, prios: &[P], c: &[u8]) {
        let mut l = Local::new();
        let cap = CAPS[c[1] as usize];
        let r = if c.last() == Some(&255) {
            guard(|| persist(cap, prios, &c[2..c.len() - 1], &mut l, 2)).unwrap_or_else(Err)
        } else {
            guard(|| replayed(cap, prios, &c[2..], &mut l).map(|_| ()).map_err(|e| e.1)).unwrap_or_else(Err)
        };
        if let Err(e) = r {
            ctx.fail(&sigify(&e), e.clone(), c);
        }
        std::fs::remove_dir_all(tmpdir()).ok();
    }
    match c[0] {
        0 => one::<u8>(ctx, &[0, 7, 255], c),
        1 => one::<i32>(ctx, &[i32::MIN, -1, 0], c),
        2 => one::<String>(ctx, &["".into(), "a".into(), "\"b\n".into()], c),
        _ => one::<u8>(ctx, &[0, 1, 2, 3, 4], c),
    }
}
