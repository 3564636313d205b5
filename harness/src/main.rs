//! cola-monitor: runs the real `cola` under simulated sessions, watched by
//! oracles.  See /verif/DESIGN.md.
//!
//!   worker PROP TIER SEED FIRST STEP COUNT SECS   run some episodes, report as JSON lines
//!   replay PROP TIER SEED IDX                     run one episode, printing what happens

// `cost` is set by check.py, for one of the builds.
#![allow(unexpected_cfgs)]

mod cost;
mod mixed;
mod heap;
mod props;
mod rep;
mod rng;
mod scen;
mod sim;


use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};


#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

/// The last panic message, of any thread.
static LAST: Mutex<String> = Mutex::new(String::new());

fn say(v: serde_json::Value) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{v}");
    let _ = o.flush();
}

fn names(mask: u64) -> Vec<&'static str> {
    (0..64).filter(|b| mask >> b & 1 == 1).map(|b| sim::oracle_name(1 << b)).collect()
}

fn one(p: &props::Prop, seed: u64, idx: u64, thorough: bool, verbose: bool) -> Result<props::Episode, String> {
    catch_unwind(AssertUnwindSafe(|| p.episode(seed, idx, thorough, verbose)))
        .map_err(|_| LAST.lock().map(|l| l.clone()).unwrap_or_default())
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST.lock() {
            *l = format!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| -> u64 { args[i].parse().expect("a number") };
    let Some(p) = args.get(1).and_then(|id| props::prop(id)) else {
        eprintln!("usage: cola-monitor worker|replay|rule PROP ...");
        std::process::exit(2);
    };
    match args[0].as_str() {
        "rule" => {
            say(serde_json::json!({"rule": p.rule, "quick": p.episodes.0, "thorough": p.episodes.1, "oracles": names(p.mask | sim::ALWAYS)}));
        },
        "worker" => {
            let thorough = args[2] == "thorough";
            let (seed, first, step, count, secs) = (num(3), num(4), num(5), num(6), num(7));
            let deadline = Instant::now() + Duration::from_secs(secs);
            let mut counters: BTreeMap<String, u64> = BTreeMap::new();
            let mut hashes: HashSet<u64> = HashSet::new();
            let (mut evaluations, mut violations) = (0u64, 0u64);
            for k in 0..count {
                let idx = first + k * step;
                if Instant::now() > deadline {
                    break;
                }
                say(serde_json::json!({"t": "start", "idx": idx}));
                let sample = k == 0 && first < 3;
                let res = one(p, seed, idx, thorough, sample);
                evaluations += 1;
                let violation = match res {
                    Err(panic) => Some((vec!["PANIC"], format!("a call panicked: {panic}"))),
                    Ok(mut e) => {
                        for (k, v) in e.out.counters {
                            let c = counters.entry(k.clone()).or_default();
                            *c = if k.starts_with("largest") { v.max(*c) } else { *c + v };
                        }
                        if e.out.nontrivial {
                            hashes.insert(e.out.hash);
                        }
                        if sample || (e.trace.is_empty() && !e.out.sample.is_empty() && k < 4) {
                            let total = e.trace.len();
                            e.trace.truncate(25);
                            say(serde_json::json!({"t": "sample", "idx": idx, "what": e.out.sample, "first_events": e.trace, "events": total}));
                        }
                        e.res.err().map(|v| (names(v.oracle), v.msg))
                    },
                };
                if let Some((oracles, msg)) = violation {
                    violations += 1;
                    say(serde_json::json!({"t": "violation", "idx": idx, "oracles": oracles, "msg": msg}));
                    if violations >= 3 {
                        break;
                    }
                }
            }
            let hashes: Vec<String> = hashes.iter().map(|h| format!("{h:x}")).collect();
            say(serde_json::json!({"t": "end", "evaluations": evaluations, "hashes": hashes, "counters": counters, "violations": violations}));
        },
        "replay" => {
            let res = one(p, num(3), num(4), args[2] == "thorough", true);
            match res {
                Err(m) => {
                    println!("VIOLATED: a call panicked: {m}");
                    std::process::exit(1);
                },
                Ok(e) => {
                    println!("{}", e.out.sample);
                    for t in &e.trace {
                        println!("{t}");
                    }
                    if let Err(v) = e.res {
                        println!("VIOLATED: {:?}: {}", names(v.oracle), v.msg);
                        std::process::exit(1);
                    }
                    println!("held");
                },
            }
        },
        _ => std::process::exit(2),
    }
}
