//! Worker: drives the real crate with generated cases and lets the monitors judge what it does.
//! mon run <prop> --seed S --tier quick|thorough [--cases N] [--threads T] --out F --progress F
//! mon seq <prop> --seed S --start I --count N --progress F     one thread, progress after every case
//! mon replay <prop> --seed S --index I                         one case, everything written out
#![allow(dead_code)]
mod bridge;
mod dd;
mod mon;
mod props;
mod rng;
mod scenes;

use mon::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}
fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub struct CaseFail {
    pub index: u64,
    pub label: String,
    pub detail: String,
}
/// runs one case; Err = harness error
fn one(p: &props::Prop, seed: u64, index: u64, m: &mut Mon) -> Result<Vec<CaseFail>, String> {
    let mut r = rng::Rng::new(seed, p.id, index);
    m.start();
    m.fails.clear();
    let res = catch_unwind(AssertUnwindSafe(|| {
        (p.run)(&mut r, m);
        // Answers must not depend on what was asked before: every few cases a near twin of the case follows
        // (one random draw with one bit altered), then the case itself once more, all judged the same way.
        if p.id != "C29" && index % RERUN == 0 && m.fails.is_empty() {
            let (sig, j) = (m.sig, m.judged);
            let mut q = rng::Rng::new(seed ^ 0x5851F42D4C957F2D, p.id, index);
            for _ in 0..2 {
                let flip = (q.below(r.n as u64) as u32, if q.chance(0.7) { q.int(11, 63) } else { q.int(0, 63) } as u32);
                m.note(|| format!("-- the near twin: draw {} with bit {} altered", flip.0, flip.1));
                let mut r = rng::Rng::new(seed, p.id, index);
                r.flip = Some(flip);
                (p.run)(&mut r, m);
                m.ev("near twin of a case");
                m.note(|| "-- the case once more".into());
                let mut r = rng::Rng::new(seed, p.id, index);
                (p.run)(&mut r, m);
                m.ev("case repeated after its near twin");
            }
            m.sig = sig;
            m.judged = j;
        }
    }));
    let mut out: Vec<CaseFail> =
        m.fails.iter().map(|f| CaseFail { index, label: f.label.to_string(), detail: f.detail.clone() }).collect();
    if res.is_err() {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if msg.starts_with("SPY-LIMIT") {
            out.push(CaseFail { index, label: "bounded number of calls".into(), detail: msg });
        } else if loc.starts_with("src/") {
            if out.is_empty() {
                return Err(format!("harness panic in case {}: {} at {}", index, msg, loc));
            }
        } else {
            out.push(CaseFail { index, label: "no panic".into(), detail: format!("panicked: {} at {}", msg, loc) });
        }
    }
    Ok(out)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn fail_json(f: &CaseFail, notes: &[String]) -> String {
    let n: Vec<String> = notes.iter().map(|x| js(x)).collect();
    format!("{{\"index\":{},\"label\":{},\"detail\":{},\"notes\":[{}]}}", f.index, js(&f.label), js(&f.detail), n.join(","))
}
struct Args {
    seed: u64,
    tier: String,
    cases: Option<u64>,
    threads: usize,
    out: Option<String>,
    progress: Option<String>,
    start: u64,
    count: u64,
    index: u64,
    limit: u64,
    plain: bool,
}
fn args(v: &[String]) -> Args {
    let mut a = Args { seed: 1, tier: "quick".into(), cases: None, threads: 8, out: None, progress: None, start: 0, count: 1, index: 0, limit: 100_000, plain: false };
    let mut i = 0;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--seed" => a.seed = x.parse().expect("seed"),
            "--tier" => a.tier = x,
            "--cases" => a.cases = Some(x.parse().expect("cases")),
            "--threads" => a.threads = x.parse().expect("threads"),
            "--out" => a.out = Some(x),
            "--progress" => a.progress = Some(x),
            "--start" => a.start = x.parse().expect("start"),
            "--count" => a.count = x.parse().expect("count"),
            "--limit" => a.limit = x.parse().expect("limit"),
            "--plain" => a.plain = x == "1",
            "--index" => a.index = x.parse().expect("index"),
            y => panic!("unknown option {}", y),
        }
        i += 2;
    }
    a
}
const BLOCK: u64 = 256;
/// one case in so many is followed by near twins and by itself again
const RERUN: u64 = 16;
const SIG_CAP: usize = 6_000_000;

fn run(p: &props::Prop, a: &Args) -> i32 {
    let total = a.cases.unwrap_or(if a.tier == "thorough" { p.thorough } else { p.quick });
    // the build without debug checks continues where the main run ended
    let (first, total) = if a.plain { (total, total + total / 4) } else { (a.start, total) };
    let next = AtomicU64::new(first);
    let began = Instant::now();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let progress = a.progress.as_ref().map(|f| std::fs::File::create(f).expect("progress file"));
    let cur: Vec<AtomicU64> = (0..a.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let agg: Mutex<(Mon, Vec<CaseFail>, Vec<String>, HashSet<u64>, u64)> = Mutex::new((Mon::default(), vec![], vec![], HashSet::new(), 0));
    std::thread::scope(|s| {
        // a case that makes no progress for a long time is reported as stuck; the driver decides what that means
        s.spawn(|| {
            let mut last: Vec<(u64, Instant)> = (0..a.threads).map(|_| (u64::MAX, Instant::now())).collect();
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for t in 0..a.threads {
                    let c = cur[t].load(Relaxed);
                    if c != last[t].0 {
                        last[t] = (c, Instant::now());
                    } else if c != u64::MAX && last[t].1.elapsed() > Duration::from_secs(20) {
                        println!("STUCK {}", c);
                        std::process::exit(70);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..a.threads)
            .map(|t| {
                let (next, stop, cur, progress, agg) = (&next, &stop, &cur, &progress, &agg);
                s.spawn(move || {
                    let mut m = Mon::default();
                    let mut sigs: Vec<u64> = vec![];
                    let mut fails = vec![];
                    let mut errs = vec![];
                    let mut n = 0u64;
                    while !stop.load(Relaxed) {
                        let b = next.fetch_add(BLOCK, Relaxed);
                        if b >= total || began.elapsed() > Duration::from_secs(a.limit) {
                            break;
                        }
                        if let Some(f) = progress {
                            let _ = f.write_all_at(format!("{:20}\n", b).as_bytes(), t as u64 * 21);
                        }
                        for i in b..(b + BLOCK).min(total) {
                            cur[t].store(i, Relaxed);
                            match one(p, a.seed, i, &mut m) {
                                Ok(f) => fails.extend(f),
                                Err(e) => errs.push(e),
                            }
                            n += 1;
                            if m.judged > 0 && sigs.len() < SIG_CAP {
                                sigs.push(m.sig);
                            }
                            if !fails.is_empty() || !errs.is_empty() {
                                stop.store(true, Relaxed);
                                break;
                            }
                        }
                    }
                    cur[t].store(u64::MAX, Relaxed);
                    let mut g = agg.lock().unwrap();
                    g.0.merge(&m);
                    g.1.extend(fails);
                    g.2.extend(errs);
                    g.3.extend(sigs);
                    g.4 += n;
                })
            })
            .collect();
        for h in hs {
            h.join().expect("worker thread");
        }
        done.store(true, Relaxed);
    });
    let (m, mut fails, errs, sigs, n) = agg.into_inner().unwrap();
    fails.sort_by_key(|f| f.index);
    let table = m.table();
    let missing: Vec<&str> = if fails.is_empty() && a.cases.is_none() && !a.plain {
        props::need::need(p.id).iter().filter(|x| !table.iter().any(|(l, c)| l == *x && *c > 0)).copied().collect()
    } else {
        vec![]
    };
    // write out some of the cases, and the failing ones, in full
    let mut samples = vec![];
    if fails.is_empty() && errs.is_empty() {
        for i in 0..total.min(4) {
            let mut r = Mon { record: true, ..Default::default() };
            let _ = one(p, a.seed, i, &mut r);
            let n: Vec<String> = r.notes.iter().take(6).map(|x| js(x)).collect();
            samples.push(format!("{{\"case\":{},\"judgements\":{},\"inputs\":[{}]}}", i, r.judged, n.join(",")));
        }
    }
    let mut fj = vec![];
    let mut seen = HashSet::new();
    for f in fails.iter() {
        if fj.len() < 8 && seen.insert((f.index, f.label.clone())) {
            let mut r = Mon { record: true, ..Default::default() };
            let _ = one(p, a.seed, f.index, &mut r);
            fj.push(fail_json(f, &r.notes));
        }
    }
    let ev: Vec<String> = table.iter().map(|(l, c)| format!("{}:{}", js(l), c)).collect();
    let miss: Vec<String> = missing.iter().map(|x| js(x)).collect();
    let ej: Vec<String> = errs.iter().map(|x| js(x)).collect();
    let out = format!(
        "{{\"prop\":{},\"seed\":{},\"tier\":{},\"evaluations\":{},\"distinct\":{},\"judgements\":{},\"unjudged\":{},\"rule\":{},\"events\":{{{}}},\"missing\":[{}],\"errors\":[{}],\"samples\":[{}],\"fails\":[{}]}}\n",
        js(p.id), a.seed, js(&a.tier), n, sigs.len(), m.total_judged, m.total_ambig, js(props::RULE), ev.join(","), miss.join(","), ej.join(","), samples.join(","), fj.join(",")
    );
    match &a.out {
        Some(f) => std::fs::write(f, out).expect("result file"),
        None => print!("{}", out),
    }
    if !fails.is_empty() {
        1
    } else if !errs.is_empty() || !missing.is_empty() {
        2
    } else {
        0
    }
}
fn seq(p: &props::Prop, a: &Args) -> i32 {
    let progress = a.progress.as_ref().map(|f| std::fs::File::create(f).expect("progress file"));
    let mut m = Mon::default();
    let mut rc = 0;
    for i in a.start..a.start + a.count {
        if let Some(f) = &progress {
            let _ = f.write_all_at(format!("{:20}\n", i).as_bytes(), 0);
        }
        match one(p, a.seed, i, &mut m) {
            Ok(f) if f.is_empty() => {}
            Ok(f) => {
                println!("SEQ-FAIL {} {}", i, f[0].label);
                rc = 1
            }
            Err(_) => rc = 2,
        }
    }
    rc
}
fn replay(p: &props::Prop, a: &Args) -> i32 {
    let mut m = Mon { record: true, ..Default::default() };
    let r = one(p, a.seed, a.index, &mut m);
    println!("property {} seed {} case {}", p.id, a.seed, a.index);
    for n in &m.notes {
        println!("  {}", n);
    }
    println!("judgements {} unjudged {}", m.judged, m.ambig);
    match r {
        Err(e) => {
            println!("HARNESS ERROR {}", e);
            2
        }
        Ok(f) => {
            for x in &f {
                println!("FAILED [{}] {}", x.label, x.detail);
            }
            if f.is_empty() {
                println!("held");
                0
            } else {
                1
            }
        }
    }
}
fn main() {
    install_hook();
    let v: Vec<String> = std::env::args().collect();
    if v.len() < 3 {
        for p in props::all() {
            println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
        }
        std::process::exit(if v.len() == 2 && v[1] == "list" { 0 } else { 2 });
    }
    let ps = props::all();
    let p = match ps.iter().find(|p| p.id == v[2]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", v[2]);
            std::process::exit(2)
        }
    };
    let a = args(&v[3..]);
    let rc = match v[1].as_str() {
        "run" => run(p, &a),
        "seq" => seq(p, &a),
        "replay" => replay(p, &a),
        _ => 2,
    };
    std::process::exit(rc);
}
