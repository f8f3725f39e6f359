mod alpha;
mod auth;
mod blk;
mod codec;
mod eng;
mod engx;
mod env;
mod ffi;
mod fw;
mod grpc;
mod pair;
mod pq;
mod qcl;
mod quic;
mod refcodec;
mod sess;
mod stream;
mod tls;
mod tok;
mod tox;

use fw::Ctx;
use std::io::Write;
use std::sync::atomic::Ordering::*;

fn run(ctx: &Ctx) {
    match ctx.id.as_str() {
        "C01" => codec::c01(ctx, 5),
        "C02" => codec::c01(ctx, 4),
        "C03" => codec::c03(ctx),
        "C04" => codec::c04(ctx),
        "C05" => stream::c05(ctx),
        "C06" => stream::c06(ctx),
        "Q01" => pq::q01(ctx),
        "S01" => sess::s01(ctx),
        "G01" => grpc::g01(ctx),
        "G02" => pair::g02(ctx),
        "X01" => quic::x01(ctx),
        "X02" => tls::x02(ctx),
        "X03" => auth::x03(ctx),
        "F01" => ffi::f01(ctx),
        "T01" | "T02" => tok::explore(ctx),
        "T03" => tox::explore(ctx),
        "T04" => qcl::explore(ctx),
        "B01" => blk::b01(ctx),
        x if x.starts_with('E') => eng::explore(ctx, x, &eng::suites(x, ctx.thorough)),
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(3)
        }
    }
}
fn replay(ctx: &Ctx, c: &[u8]) {
    match ctx.id.as_str() {
        "C01" | "C02" => codec::c01_replay(ctx, c),
        "C03" => codec::c03_replay(ctx, c),
        "C04" => codec::c04_replay(ctx, c),
        "C05" => stream::c05_replay(ctx, c),
        "C06" => stream::c06_replay(ctx, c),
        "Q01" => pq::q01_replay(ctx, c),
        "S01" => sess::s01_replay(ctx, c),
        "G01" => grpc::g01_replay(ctx, c),
        "G02" => pair::g02_replay(ctx, c),
        "X01" => quic::x01_replay(ctx, c),
        "X02" => tls::x02_replay(ctx, c),
        "X03" => auth::x03_replay(ctx, c),
        "F01" => ffi::f01_replay(ctx, c),
        "T01" | "T02" => tok::replay(ctx, c),
        "T03" => tox::replay(ctx, c),
        "T04" => qcl::replay(ctx, c),
        "B01" => blk::b01_replay(ctx, c),
        x if x.starts_with('E') => eng::replay(ctx, x, &eng::suites(x, ctx.thorough), c),
        _ => std::process::exit(3),
    }
}
/// How a property's coverage is reported: model_checking (state/transition counts) or exploration.
fn level(id: &str) -> &'static str {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "G01" => "exploration",
        _ => "model_checking",
    }
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn write_replay(dir: &str, id: &str, k: usize, sig: &str, detail: &str, case: &[u8]) -> String {
    std::fs::create_dir_all(dir).ok();
    let p = format!("{}/{}-{}.txt", dir, id, k);
    let mut f = std::fs::File::create(&p).unwrap();
    writeln!(f, "property={}\nsignature={}\ncase_hex={}\n\n{}\n\nreplay: tools/check.py {} --replay {}", id, sig, case.iter().map(|x| format!("{:02x}", x)).collect::<String>(), detail, id, p).unwrap();
    p
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let id = a[1].clone();
    if id == "generate" {
        // the Python bindings of the foreign-function interface
        return uniffi::uniffi_bindgen_main();
    }
    if id == "quicserver" {
        return quic::serve_stdin();
    }
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let evid = get("--evidence").unwrap_or_else(|| "/dev/null".into());
    let rdir = get("--replays").unwrap_or_else(|| "/tmp/mc-replay".into());
    let mut known = vec![];
    if let Some(k) = get("--known") {
        for line in std::fs::read_to_string(k).unwrap_or_default().lines() {
            // known: property=<id> sig=<signature> | text
            if let Some(r) = line.strip_prefix(&format!("known: property={} sig=", id)) {
                let (s, t) = r.split_once(" | ").unwrap_or((r, ""));
                known.push((s.trim().to_string(), t.to_string()));
            }
        }
    }
    fw::install_panic_hook();
    if let Some(s) = get("--slots") {
        fw::slots_init(&s);
    }
    let ctx = Ctx::new(&id, thorough, known);
    if let Some(f) = get("--replay") {
        let t = std::fs::read_to_string(&f).unwrap();
        let c = t.lines().find_map(|l| l.strip_prefix("case_hex=")).unwrap();
        replay(&ctx, &fw::unhex(c));
        for v in ctx.violations.lock().unwrap().values() {
            println!("REPRODUCED {}: {}", v.sig, v.detail);
        }
        std::process::exit(if ctx.violations.lock().unwrap().is_empty() { 0 } else { 1 });
    }
    {
        let (id, rdir) = (id.clone(), rdir.clone());
        fw::watchdog(40, move |what, c| {
            let p = write_replay(&rdir, &id, 0, what, what, &c);
            println!("VIOLATION property={} replay={}", id, p);
            println!("  {}: case {}", what, fw::hex(&c));
            std::io::stdout().flush().ok();
            unsafe { libc::_exit(1) }
        });
    }
    let t0 = env::real_now_ms();
    run(&ctx);
    let wall = (env::real_now_ms() - t0) as f64 / 1000.0;
    let foreign = ctx.foreign.load(SeqCst);
    if foreign > 0 {
        ctx.note("branches ended by violations of other properties", foreign);
    }
    let vs = ctx.violations.lock().unwrap();
    let unknown: Vec<_> = vs.values().filter(|v| !ctx.is_known(&v.sig)).collect();
    for (s, t) in &ctx.known {
        if vs.contains_key(s) {
            println!("KNOWN-FINDING: property={} {} ({})", id, t, s);
        }
    }
    for (k, v) in unknown.iter().enumerate() {
        let p = write_replay(&rdir, &id, k, &v.sig, &v.detail, &v.case);
        println!("VIOLATION property={} replay={}", id, p);
        println!("  {}: {}", v.sig, v.detail.chars().take(700).collect::<String>());
    }
    let evals = ctx.evals.load(SeqCst);
    let steps = ctx.steps.load(SeqCst);
    let outcomes = ctx.outcomes.lock().unwrap().len();
    let states = ctx.states.lock().unwrap().len();
    let samples: Vec<String> = ctx.samples.lock().unwrap().iter().map(|s| json_str(s)).collect();
    let notes = ctx.notes.lock().unwrap();
    let rule = notes.get("rule").cloned().unwrap_or_else(|| "every element of the bounded space described in DESIGN.md; distinct = different observed outcome (packet/result/trace hash)".into());
    let mut cov = vec![format!("\"samples\":[{}]", samples.join(","))];
    if level(&id) == "exploration" {
        cov.push(format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"checks\":{}", evals, outcomes, json_str(&rule), steps));
    } else {
        cov.push(format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"rule\":{}", states, steps, evals, outcomes, json_str(&rule)));
    }
    cov.push(format!("\"exhaustive\":{}", !ctx.stopped()));
    for (k, v) in notes.iter() {
        if k != "rule" {
            cov.push(format!("{}:{}", json_str(k), json_str(v)));
        }
    }
    let e = format!("{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{{}}},\"assumptions\":[\"bounds and alphabets as in DESIGN.md; values outside them are not covered\"],\"wall_s\":{},\"violations\":{}}}\n", id, if thorough { "thorough" } else { "quick" }, seed, level(&id), cov.join(","), wall, unknown.len());
    std::fs::write(&evid, e).ok();
    println!("{}: {} evaluations, {} steps, {} distinct outcomes, {} states, {:.1} s, {} violation(s), {} known, {} branches cut", id, evals, steps, outcomes, states, wall, unknown.len(), vs.len() - unknown.len(), foreign);
    std::io::stdout().flush().ok();
    std::process::exit(if unknown.is_empty() { 0 } else { 1 });
}
