//! vmon — drives the real openid4vci library and monitors what it does.
//!   vmon run <ID>            run one property's monitor (VERIF_SEED, VERIF_TIER)
//!   vmon replay <file>       run the case recorded in a replay file again
//!   vmon <worker> ...        child modes (hostile, sanitizer and fresh-process workloads)
mod ambient;
mod api;
mod beyond;
mod build;
mod clock;
mod core;
mod dict;
mod errors;
mod evalx;
mod forms;
mod gen;
mod histories;
mod hostile;
mod issuer;
mod oracle;
mod probe;
mod scale;
mod stateless;
mod compose;
mod relate;
mod strict;
mod tokens;
mod wire;

use crate::core::{clip, guarded, Beat, install_panic_hook, seed_for, Ctx, Rng};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Def {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx, &mut Rng),
    /// once per run: enumerations and child processes
    pub extra: Option<fn(&mut Ctx)>,
    /// event classes that a run must have observed
    pub required: &'static [&'static str],
    pub rule: &'static str,
}

pub fn none(_: &mut Ctx, _: &mut Rng) {}

fn defs() -> Vec<Def> {
    let mut v = vec![];
    v.extend(tokens::defs());
    v.extend(evalx::defs());
    v.extend(forms::defs());
    v.extend(issuer::defs());
    v.extend(errors::defs());
    v.extend(wire::defs());
    v.extend(hostile::defs());
    v.extend(stateless::defs());
    v.extend(histories::defs());
    v.extend(beyond::defs());
    v.extend(scale::defs());
    v.extend(strict::defs());
    v.extend(relate::defs());
    v.extend(compose::defs());
    v
}

/// Properties whose cases also serve as workload for those that hold of every call (C22, C23, C24, C33):
/// what they judge is left out there.
const LENDERS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
    "C25", "C26", "C27", "C28", "C29", "C30", "C32", "C35", "C36", "C37", "C38",
];

pub struct Borrowed {
    pub from: &'static str,
    pub case: u64,
    pub events: u64,
    pub panics: Vec<String>,
}

/// Run one random case of another property.
pub fn borrowed(r: &mut Rng, seed: u64) -> Borrowed {
    static DEFS: std::sync::OnceLock<Vec<Def>> = std::sync::OnceLock::new();
    let defs = DEFS.get_or_init(|| defs().into_iter().filter(|d| d.quick > 0 && LENDERS.contains(&d.id)).collect());
    let (d, case) = (r.below(defs.len()), r.u64());
    let d = &defs[d];
    let mut ctx = Ctx::new(d.id, seed, false);
    let (_, panics) = core::observed(|| (d.case)(&mut ctx, &mut Rng::new(case)));
    clock::real();
    Borrowed { from: d.id, case, events: ctx.events, panics }
}

pub fn root() -> PathBuf {
    std::env::var("VMON_ROOT").map_or_else(|_| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")), PathBuf::from)
}

pub const EXTRA: u64 = u64::MAX;

/// Signatures of findings that are recorded and accepted (known_findings.json).
fn listed() -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|f| (f["property"].as_str().unwrap_or("").to_owned(), f["signature"].as_str().unwrap_or("").to_owned()))
        .collect()
}

fn run(def: &Def, seed: u64, thorough: bool, cases: Option<u64>) -> i32 {
    let started = Instant::now();
    let n = cases.unwrap_or(if thorough { def.thorough } else { def.quick });
    let cap = Duration::from_secs(if thorough { 540 } else { 150 });
    let next = Arc::new(AtomicU64::new(0));
    let total = Arc::new(Mutex::new(Ctx::new(def.id, seed, thorough)));
    let stop = Arc::new(AtomicBool::new(false));
    // watchdog: a library call that uses the processor without end is a violation (no property holds
    // of an answer that is never given); anything else that is stuck makes the run inconclusive
    let beats: Arc<Vec<Arc<Beat>>> = Arc::new((0..8).map(|_| Arc::default()).collect());
    {
        let (beats, stop, id) = (beats.clone(), stop.clone(), def.id);
        std::thread::spawn(move || {
            while !stop.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_secs(1));
                let now = started.elapsed().as_secs();
                for b in beats.iter() {
                    let since = b.since.load(Ordering::Relaxed);
                    if since == 0 || now < since + 60 {
                        continue;
                    }
                    if b.depth.load(Ordering::Relaxed) > 1 && b.spent() > Duration::from_secs(60) {
                        let file = root().join("replays").join(format!("{id}-{}.json", std::process::id()));
                        let what = "a call into the library does not return (more than 60 s of processor time)";
                        let body = json!({"property": id, "seed": seed, "tier": if thorough { "thorough" } else { "quick" }, "index": b.index.load(Ordering::Relaxed), "what": what, "witness": null});
                        let _ = std::fs::create_dir_all(root().join("replays"));
                        let _ = std::fs::write(&file, format!("{body:#}\n"));
                        println!("  violated: {what}");
                        println!("VIOLATION property={id} replay={}", file.display());
                        std::process::exit(1);
                    }
                    if now > since + 240 {
                        eprintln!("inconclusive: property={id}: a case has been running for more than 240 s");
                        std::process::exit(2);
                    }
                }
            }
        });
    }
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (next, total, beat) = (next.clone(), total.clone(), beats[t].clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx::new(def.id, seed, thorough);
                    beat.attach();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || started.elapsed() > cap {
                            break;
                        }
                        beat.starts(started.elapsed().as_secs(), i);
                        ctx.index = i;
                        let mut r = Rng::new(seed_for(seed, def.id, i));
                        if let Err(p) = guarded(|| (def.case)(&mut ctx, &mut r)) {
                            ctx.problem(format!("the harness panicked in case {i}: {p}"));
                        }
                        clock::real();
                    }
                    beat.since.store(0, Ordering::Relaxed);
                    total.lock().unwrap().merge(ctx);
                })
                .expect("thread");
        }
    });
    stop.store(true, Ordering::Relaxed);
    let mut ctx = Arc::into_inner(total).unwrap().into_inner().unwrap();
    if let Some(f) = def.extra {
        ctx.index = EXTRA;
        f(&mut ctx);
    }
    finish(def, ctx, started.elapsed().as_secs_f64(), cases.is_some())
}

fn finish(def: &Def, mut ctx: Ctx, wall: f64, partial: bool) -> i32 {
    let known_list = listed();
    let known = std::mem::take(&mut ctx.known);
    let mut findings = vec![];
    for (sig, (count, example)) in &known {
        if known_list.iter().any(|(p, s)| p == def.id && s == sig) {
            let example: String = example.replace('\n', " ").chars().take(200).collect();
            println!("KNOWN-FINDING: property={} {} ({} times; e.g. {})", def.id, sig, count, example);
            findings.push(json!({"signature": sig, "observed": count}));
        } else {
            ctx.violation(format!("{sig} (observed {count} times)"), json!({ "example": example }));
        }
    }
    ctx.violations.sort_by_key(|v| v.index);
    let missing: Vec<&str> =
        def.required.iter().copied().filter(|c| ctx.classes.get(*c).copied().unwrap_or(0) == 0).collect();
    let evidence = json!({
        "property": def.id,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": ctx.distinct.len(),
            "rule": def.rule,
            "library_calls_observed": ctx.events,
            "event_classes": ctx.classes,
            "required_classes": def.required,
            "known_findings": findings,
            "samples": ctx.samples.iter().map(|s| clip(s, 400)).collect::<Vec<_>>(),
        },
        "assumptions": [
            "held on the executions observed, not verified beyond them",
            "time verdicts use the virtual clock of the harness (self-tested at start)"
        ],
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": ctx.violation_count,
    });
    if !partial {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", def.id)), format!("{evidence:#}\n")) {
            eprintln!("inconclusive: cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "{}: {} library calls, {} decisions, {} distinct non-trivial, {:.1} s",
        def.id,
        ctx.events,
        ctx.evaluations,
        ctx.distinct.len(),
        wall
    );
    if let Some(v) = ctx.violations.first() {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-{}.json", def.id, std::process::id()));
        let body = json!({
            "property": def.id, "seed": ctx.seed, "tier": if ctx.thorough { "thorough" } else { "quick" },
            "index": if v.index == EXTRA { Value::Null } else { json!(v.index) },
            "what": v.what, "witness": v.witness,
            "others": ctx.violations.iter().skip(1).take(10).map(|v| json!({"index": v.index.to_string(), "what": v.what})).collect::<Vec<_>>(),
        });
        let _ = std::fs::write(&file, format!("{body:#}\n"));
        for v in ctx.violations.iter().take(5) {
            println!("  violated: {}", v.what.chars().take(600).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", def.id, file.display());
        return 1;
    }
    if !ctx.problems.is_empty() {
        eprintln!("inconclusive: property={}: {}", def.id, ctx.problems.join("; "));
        return 2;
    }
    if !partial && !missing.is_empty() {
        eprintln!("inconclusive: property={}: never observed: {}", def.id, missing.join(", "));
        return 2;
    }
    0
}

fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay JSON");
    let defs = defs();
    let def = defs.iter().find(|d| Some(d.id) == v["property"].as_str()).expect("property");
    let seed = v["seed"].as_u64().unwrap_or(1);
    let mut ctx = Ctx::new(def.id, seed, v["tier"] == "thorough");
    ctx.verbose = true;
    match v["index"].as_u64() {
        Some(i) => {
            ctx.index = i;
            let mut r = Rng::new(seed_for(seed, def.id, i));
            (def.case)(&mut ctx, &mut r);
        }
        None => {
            if let Some(f) = def.extra {
                f(&mut ctx);
            }
        }
    }
    if ctx.violation_count > 0 {
        println!("VIOLATION property={} replay={file}", def.id);
        1
    } else {
        println!("not reproduced; recorded: {} {:#}", v["what"], v["witness"]);
        0
    }
}

fn main() {
    install_panic_hook();
    if let Err(e) = clock::self_test().and_then(|()| ambient::self_test()).and_then(|()| probe::self_test()) {
        eprintln!("inconclusive: {e}");
        std::process::exit(2);
    }
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let code = match args.get(1).map(String::as_str) {
        Some("run") => {
            let defs = defs();
            let id = args.get(2).map_or("", String::as_str);
            match defs.iter().find(|d| d.id == id) {
                Some(d) => run(d, seed, thorough, args.get(3).and_then(|n| n.parse().ok())),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => replay(&args[2]),
        Some("hostile") => hostile::child(&args[2..]),
        Some("exercise") => stateless::exercise(&args[2..]),
        Some("verdicts") => stateless::verdicts(&args[2..]),
        Some("self") => 0,
        Some("literals") => {
            dict::print();
            0
        }
        Some("light") => stateless::light_run(&args[2..]),
        Some("light-race") => stateless::light_race(&args[2..]),
        Some("race") => stateless::race(&args[2..]),
        _ => {
            eprintln!("usage: vmon run <ID> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
