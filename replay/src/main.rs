//! Executable contracts for magog: counterexample search, bounded stand-ins and
//! replay of recorded failing inputs, all against the real crate in /repo.
//!
//! vreplay check <PROP> <iters-multiplier> <seed> [seconds]   search
//! vreplay replay <file>                                     re-run one recorded case
//! vreplay list
#![allow(clippy::all)]
mod case;
mod exact;
mod gen;
mod p_big;
mod p_env;
mod p_geom;
mod p_index;
mod p_planar;
mod p_single;
mod p_valid;

use case::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn suites() -> Vec<Suite> {
    let mut v = Vec::new();
    v.extend(p_env::suites());
    v.extend(p_index::suites());
    v.extend(p_planar::suites());
    v.extend(p_valid::suites());
    v.extend(p_geom::suites());
    v.extend(p_big::suites());
    v.extend(p_single::suites());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in suites() {
                println!("{} {} {}", s.prop, s.kind, s.iters);
            }
        }
        Some("check") => check(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(),
            args.get(5).map(|s| s.parse().unwrap()).unwrap_or(600.0)),
        Some("nested") => {
            let t = p_geom::nested_text(args[2].parse().unwrap(), args[3].parse().unwrap());
            println!("{}", if magog::serde::wkt::parse_wkt(&t).is_err() { "error" } else { "accepted" });
        }
        Some("replay") => replay(&args[2]),
        _ => {
            eprintln!("usage: vreplay check PROP MULT SEED [SECS] | replay FILE | list");
            std::process::exit(2);
        }
    }
}

fn replay(path: &str) {
    let text = std::fs::read_to_string(path).expect("cannot read replay file");
    let mut prop = None;
    let mut case = None;
    for line in text.lines() {
        if let Some(p) = line.strip_prefix("property: ") {
            prop = Some(p.trim().to_string());
        }
        if let Some(c) = line.strip_prefix("case: ") {
            case = Some(Case::parse(c.trim()));
        }
    }
    let (prop, case) = match (prop, case) {
        (Some(p), Some(c)) => (p, c),
        _ => {
            println!("no concrete case recorded in {}", path);
            std::process::exit(3);
        }
    };
    for s in suites() {
        if s.prop == prop && s.kind == case.kind {
            match run_case(&s, &case) {
                Ok(_) => {
                    println!("REPLAY OK: the contract holds on this input");
                    std::process::exit(0);
                }
                Err(e) => {
                    println!("REPLAY FAIL property={} {}", prop, e);
                    println!("input: {}", case.pretty());
                    std::process::exit(1);
                }
            }
        }
    }
    println!("unknown kind {}", case.kind);
    std::process::exit(3);
}

struct Found {
    kind: String,
    case: Case,
    msg: String,
}

fn check(prop: &str, mult: f64, seed: u64, secs: f64) {
    let start = Instant::now();
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let all: Vec<Suite> = suites().into_iter().filter(|s| s.prop == prop).collect();
    if all.is_empty() {
        println!("{{\"property\":\"{}\",\"error\":\"no suites\"}}", prop);
        std::process::exit(2);
    }
    let evals = AtomicU64::new(0);
    let mut distinct_total = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut kinds: Vec<String> = Vec::new();
    let mut exhaustive: Vec<String> = Vec::new();
    let mut truncated = false;
    let found: Mutex<Vec<Found>> = Mutex::new(Vec::new());
    for (si, s) in all.iter().enumerate() {
        let stop = AtomicBool::new(false);
        let hashes: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
        let total = ((s.iters as f64) * mult).ceil() as u64;
        let exh: u64 = s.exhaustive.map(|f| f(None).1).unwrap_or(0);
        let suite_start = Instant::now();
        let budget = Duration::from_secs_f64(secs / all.len() as f64 + 0.001);
        let tsamples: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let trunc = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (stop, hashes, found, evals, tsamples, trunc) = (&stop, &hashes, &found, &evals, &tsamples, &trunc);
                sc.spawn(move || {
                    let mut local = std::collections::HashSet::new();
                    let mut n = 0u64;
                    let mut handle = |case: Case, n: &mut u64| -> bool {
                        *n += 1;
                        evals.fetch_add(1, Ordering::Relaxed);
                        match run_case(s, &case) {
                            Ok(nontrivial) => {
                                if nontrivial {
                                    let h = case.hash();
                                    if local.len() < 200_000 && local.insert(h) && local.len() == 3 && t == 0 {
                                        tsamples.lock().unwrap().push(case.pretty());
                                    }
                                }
                                true
                            }
                            Err(msg) => {
                                stop.store(true, Ordering::Relaxed);
                                found.lock().unwrap().push(Found { kind: s.kind.to_string(), case, msg });
                                false
                            }
                        }
                    };
                    if let Some(f) = s.exhaustive {
                        let mut i = t as u64;
                        while i < exh && !stop.load(Ordering::Relaxed) {
                            if let Some(c) = f(Some(i)).0 {
                                if !handle(c, &mut n) { return; }
                            }
                            i += nthreads as u64;
                            if i % 256 < nthreads as u64 && suite_start.elapsed() > budget {
                                trunc.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                    if let Some(g) = s.gen {
                        let mut i = t as u64;
                        while i < total && !stop.load(Ordering::Relaxed) {
                            let mut rng = gen::Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((si as u64) << 48) ^ i.wrapping_mul(0xD1B54A32D192ED03));
                            // sizes grow slowly so that the first failure found is small
                            let mut size = 1 + (i * 24 / total.max(1)) as usize;
                            if i % 499 == 7 { size = size.max(8) * 4; }
                            if let Some(mut c) = g(&mut rng, size) {
                                if SCALED.contains(&s.kind) && i % 3 == 0 {
                                    // very small and very large figures
                                    c.n = vec![[-80, -60, -45, -30, -10, 12, 30, 60][(i / 3 % 8) as usize]];
                                }
                                if !handle(c, &mut n) { break; }
                            }
                            i += nthreads as u64;
                            if suite_start.elapsed() > budget {
                                trunc.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                    hashes.lock().unwrap().extend(local);
                });
            }
        });
        distinct_total += hashes.lock().unwrap().len() as u64;
        if trunc.load(Ordering::Relaxed) { truncated = true; }
        else if exh > 0 { exhaustive.push(format!("{} ({})", s.kind, exh)); }
        samples.extend(tsamples.into_inner().unwrap().into_iter().take(1).map(|x| format!("{}: {}", s.kind, x)));
        kinds.push(format!("{}: {}", s.kind, s.rule));
    }
    let found = found.into_inner().unwrap();
    // Smallest failing case first.
    let mut order: Vec<usize> = (0..found.len()).collect();
    order.sort_by_key(|&i| found[i].case.weight());
    let fails: Vec<String> = order.iter().take(20).map(|&i| {
        let f = &found[i];
        let (case, msg) = shrink(all.iter().find(|s| s.kind == f.kind).unwrap(), &f.case, &f.msg);
        format!("{{\"kind\":{},\"msg\":{},\"case\":{},\"input\":{}}}", js(&f.kind), js(&msg), js(&case.ser()), js(&case.pretty()))
    }).collect();
    println!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"truncated\":{},\"kinds\":[{}],\"exhaustive\":[{}],\"samples\":[{}],\"fails\":[{}],\"wall_s\":{:.2}}}",
        js(prop), evals.load(Ordering::Relaxed), distinct_total, truncated,
        kinds.iter().map(|k| js(k)).collect::<Vec<_>>().join(","),
        exhaustive.iter().map(|k| js(k)).collect::<Vec<_>>().join(","),
        samples.iter().map(|k| js(k)).collect::<Vec<_>>().join(","),
        fails.join(","), start.elapsed().as_secs_f64());
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Greedy shrinking: drop sub-structures while the contract still fails.
fn shrink(s: &Suite, case: &Case, msg: &str) -> (Case, String) {
    let mut best = (case.clone(), msg.to_string());
    if s.noshrink { return best; }
    let t = Instant::now();
    let mut progress = true;
    while progress && t.elapsed().as_secs() < 5 {
        progress = false;
        for cand in best.0.shrinks() {
            if let Err(m) = run_case(s, &cand) {
                if m.starts_with("precondition") { continue; }
                best = (cand, m);
                progress = true;
                break;
            }
        }
    }
    best
}
