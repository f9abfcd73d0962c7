//! Runs scenarios: worker mode (many cases within a budget) and replay mode (one case, traced).
use crate::case::{Case, Violation};
use crate::rng::splitmix;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    /// relative frequency
    pub weight: u32,
    pub run: fn(&mut Case),
}

/// Panic payload for faults injected on purpose by scenarios.
pub struct Injected;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub enum Outcome {
    Ok,
    Violation { sig: String, msg: String },
}

/// counters whose name starts with this are merged by maximum instead of by sum
pub const MAX_PREFIX: &str = "max_";

fn run_case(sc: &Scenario, seed: u64, tracing: bool) -> (Case, Outcome) {
    let mut c = Case::new(seed, tracing);
    crate::tok::reset();
    let r = catch_unwind(AssertUnwindSafe(|| (sc.run)(&mut c)));
    let out = match r {
        Ok(()) => match crate::tok::error() {
            Some(e) => Outcome::Violation {
                sig: "ledger".into(),
                msg: e,
            },
            None => Outcome::Ok,
        },
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Violation>() {
                let mut msg = v.msg.clone();
                if let Some(e) = crate::tok::error() {
                    msg = format!("{msg} [ledger: {e}]");
                }
                Outcome::Violation {
                    sig: v.sig.clone(),
                    msg,
                }
            } else {
                let m = take_last_panic().unwrap_or_else(|| "?".into());
                Outcome::Violation {
                    sig: "unexpected panic".into(),
                    msg: m,
                }
            }
        }
    };
    (c, out)
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|x| x.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|x| x.parse().expect("number")).unwrap_or(d)
    }
}

pub fn main(prop: &str, scenarios: &[Scenario]) {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.downcast_ref::<Violation>().is_some() || p.downcast_ref::<Injected>().is_some() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/registry/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let can_unwind = !msg.contains("unsafe precondition");
        if !can_unwind {
            eprintln!("PANIC {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {msg} at {loc}")));
    }));
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let mut a = BTreeMap::new();
    let mut i = 1;
    while i + 1 < argv.len() + 1 && i < argv.len() {
        a.insert(
            argv[i].trim_start_matches("--").to_string(),
            argv.get(i + 1).cloned().unwrap_or_default(),
        );
        i += 2;
    }
    let args = Args(a);
    // deep trees and interpreters: run on a thread with a generous, fixed stack
    let prop = prop.to_string();
    let mode = argv.first().cloned().unwrap_or_default();
    let scs: Vec<Scenario> = scenarios
        .iter()
        .map(|s| Scenario {
            name: s.name,
            weight: s.weight,
            run: s.run,
        })
        .collect();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || match mode.as_str() {
            "worker" => worker(&prop, &scs, &args),
            "replay" => replay(&prop, &scs, &args),
            "list" => {
                for s in &scs {
                    println!("{}", s.name);
                }
                0
            }
            _ => {
                eprintln!("usage: worker|replay|list");
                2
            }
        })
        .unwrap();
    let code = h.join().unwrap_or(70);
    std::process::exit(code);
}

fn case_seed(seed: u64, worker: u64, i: u64, sc: usize) -> u64 {
    let mut x = seed
        .wrapping_mul(0x2545_F491_4F6C_DD1D)
        .wrapping_add(worker.wrapping_mul(0x9E37_79B9))
        .wrapping_add(i << 20)
        .wrapping_add(sc as u64);
    splitmix(&mut x);
    splitmix(&mut x)
}

fn worker(prop: &str, scs: &[Scenario], args: &Args) -> i32 {
    let seed = args.num("seed", 1);
    let w = args.num("worker", 0);
    let budget = Duration::from_millis(args.num("budget-ms", 1000));
    let max_cases = args.num("max-cases", u64::MAX);
    let only = args.get("only").map(|s| s.split(',').map(|x| x.to_string()).collect::<Vec<_>>());
    let stdout_progress = args.get("progress") == Some("-");
    let mut progress = match args.get("progress") {
        Some("-") | None => None,
        Some(f) => Some(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).unwrap()),
    };
    // weighted round robin schedule
    let mut sched: Vec<usize> = Vec::new();
    for (i, s) in scs.iter().enumerate() {
        if let Some(o) = &only {
            if !o.iter().any(|n| s.name.starts_with(n.as_str())) {
                continue;
            }
        }
        for _ in 0..s.weight {
            sched.push(i);
        }
    }
    if sched.is_empty() {
        eprintln!("no scenario selected");
        return 2;
    }
    let mut rng = crate::Rng::new(seed ^ (w << 32));
    rng.shuffle(&mut sched);
    let start = Instant::now();
    let mut digests: HashSet<u64> = HashSet::new();
    let cap = 120_000usize;
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut per: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut violations: Vec<serde_json::Value> = Vec::new();
    let mut i = 0u64;
    while i < max_cases && start.elapsed() < budget {
        let k = sched[(i as usize) % sched.len()];
        let sc = &scs[k];
        let cs = case_seed(seed, w, i, k);
        if let Some(f) = progress.as_mut() {
            let line = format!("{:<24} {:<24} {}\n", i, cs, sc.name);
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(format!("{:<100}", line).as_bytes());
        } else if stdout_progress {
            println!("CASE {} {} {}", i, cs, sc.name);
        }
        let (c, out) = run_case(sc, cs, false);
        evals += 1;
        *per.entry(sc.name).or_insert(0) += 1;
        for (k, v) in &c.counters {
            let e = counters.entry(k.to_string()).or_insert(0);
            if k.starts_with(MAX_PREFIX) {
                *e = (*e).max(*v)
            } else {
                *e += v
            }
        }
        if c.nontrivial {
            nontrivial += 1;
            if digests.len() < cap {
                use std::hash::Hasher;
                digests.insert(c.digest.finish() ^ (k as u64));
            }
        }
        if let Outcome::Violation { sig, msg } = out {
            // run it again, traced, for the replay record (when it does not depend on schedule)
            let (c2, out2) = run_case(sc, cs, true);
            let repro = matches!(out2, Outcome::Violation { .. });
            let (sig, msg) = match out2 {
                Outcome::Violation { sig, msg } => (sig, msg),
                Outcome::Ok => (sig, msg),
            };
            let tail: Vec<String> = c2.trace.iter().rev().take(60).rev().cloned().collect();
            violations.push(json!({"scenario": sc.name, "case_seed": cs, "sig": sig, "msg": clip(&msg), "trace": tail, "reproduced_in_process": repro}));
            if violations.len() >= 3 {
                break;
            }
        } else if samples.len() < 2 && c.nontrivial && i >= sched.len() as u64 && w == 0 && !cfg!(miri) {
            let (c2, _) = run_case(sc, cs, true);
            if !c2.trace.is_empty() && c2.trace.len() < 40 {
                let t: Vec<String> = c2.trace.iter().take(25).map(|s| clip(s)).collect();
                samples.push(json!({"scenario": sc.name, "case_seed": cs, "trace": t}));
            }
        }
        i += 1;
    }
    let out = json!({
        "prop": prop, "evaluations": evals, "nontrivial": nontrivial, "distinct": digests.len(),
        "counters": counters, "per_scenario": per, "samples": samples, "violations": violations,
        "elapsed_ms": start.elapsed().as_millis() as u64,
    });
    match args.get("out") {
        Some("-") | None => println!("RESULT {}", show(&out)),
        Some(f) => {
            std::fs::write(f, out.to_string()).unwrap();
            let mut b = Vec::with_capacity(digests.len() * 8);
            for d in &digests {
                b.extend_from_slice(&d.to_le_bytes());
            }
            std::fs::write(format!("{f}.digests"), b).unwrap();
        }
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}

/// as serde_json does it, whose number formatting relies on uninitialised memory, which Miri refuses
fn show(v: &serde_json::Value) -> String {
    use serde_json::Value::*;
    match v {
        Null => "null".into(),
        Bool(b) => b.to_string(),
        Number(n) => n.as_u64().unwrap_or(0).to_string(),
        String(s) => {
            let mut r = std::string::String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => r.push_str("\\\""),
                    '\\' => r.push_str("\\\\"),
                    c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
                    c => r.push(c),
                }
            }
            r + "\""
        }
        Array(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(",")),
        Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", show(&String(k.clone())), show(v))).collect::<Vec<_>>().join(",")),
    }
}

fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

fn replay(prop: &str, scs: &[Scenario], args: &Args) -> i32 {
    let name = args.get("scenario").expect("--scenario");
    let cs = args.num("case-seed", 0);
    let reps = args.num("repeat", 1);
    let sc = scs.iter().find(|s| s.name == name).expect("scenario");
    for _ in 0..reps {
        let (c, out) = run_case(sc, cs, true);
        for l in &c.trace {
            println!("  {}", clip(l));
        }
        if let Outcome::Violation { sig, msg } = out {
            println!("VIOLATED property={prop} scenario={name} case_seed={cs}: {sig}: {msg}");
            return 1;
        }
    }
    println!("held property={prop} scenario={name} case_seed={cs}");
    0
}
