//! Deterministic randomness, event accounting, verdicts.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn seed_for(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    mix(h ^ mix(index))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n.max(1) as u64)) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn flip(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub index: u64,
    pub what: String,
    pub witness: Value,
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub evaluations: u64,
    pub events: u64,
    pub classes: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub violation_count: u64,
    /// known-finding signature -> (count, example)
    pub known: BTreeMap<String, (u64, String)>,
    pub problems: Vec<String>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_LIB: RefCell<u32> = const { RefCell::new(0) };
    static LEVEL: Cell<u32> = const { Cell::new(0) };
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static BEAT: RefCell<Option<std::sync::Arc<Beat>>> = const { RefCell::new(None) };
}

/// What a watchdog knows of a worker thread.
#[derive(Default)]
pub struct Beat {
    pub thread: AtomicU64,
    /// when its case started (seconds of the run), 0 while it has none
    pub since: AtomicU64,
    /// processor time it had used by then (ns)
    pub used: AtomicU64,
    /// calls of `guarded` within each other: beyond the first, the library is running
    pub depth: AtomicU64,
    pub index: AtomicU64,
}

impl Beat {
    pub fn attach(self: &std::sync::Arc<Self>) {
        let link = std::fs::read_link("/proc/thread-self").unwrap_or_default();
        let tid = link.file_name().and_then(|n| n.to_str()).and_then(|n| n.parse().ok()).unwrap_or(0);
        self.thread.store(tid, Ordering::Relaxed);
        BEAT.with(|b| *b.borrow_mut() = Some(self.clone()));
    }
    pub fn starts(&self, at: u64, index: u64) {
        self.used.store(busy().as_nanos() as u64, Ordering::Relaxed);
        self.index.store(index, Ordering::Relaxed);
        self.since.store(at.max(1), Ordering::Relaxed);
    }
    /// Processor time of the thread since its case started.
    pub fn spent(&self) -> Duration {
        busy_of(self.thread.load(Ordering::Relaxed)).unwrap_or_default().saturating_sub(Duration::from_nanos(self.used.load(Ordering::Relaxed)))
    }
}

/// Processor time of this thread.
pub fn busy() -> Duration {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    Duration::new(t.sec as u64, t.nsec as u32)
}

/// Processor time of another thread of this process.
pub fn busy_of(tid: u64) -> Option<Duration> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?;
    Some(Duration::from_nanos(t.split(' ').next()?.parse().ok()?))
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_lib = IN_LIB.with(|l| *l.borrow() > 0);
        let text = info.to_string();
        if text.contains("unsafe precondition(s) violated") {
            // cannot be caught: the process ends here, and the report must be seen
            default(info);
        } else if in_lib {
            PANIC.with(|p| *p.borrow_mut() = Some(text));
        } else {
            default(info);
        }
    }));
}

/// Run library code; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let deeper = |by: u64| {
        let _ = BEAT.try_with(|b| b.borrow().as_ref().map(|b| b.depth.fetch_add(by, Ordering::Relaxed)));
    };
    let depth = IN_LIB.with(|l| {
        *l.borrow_mut() += 1;
        *l.borrow()
    });
    let level = LEVEL.with(Cell::get);
    let observed = level > 0 && depth > level;
    deeper(1);
    let r = catch_unwind(AssertUnwindSafe(|| if observed { crate::probe::watch(f) } else { f() }));
    deeper(u64::MAX);
    IN_LIB.with(|l| *l.borrow_mut() -= 1);
    r.map_err(|_| {
        let text = PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into());
        if observed {
            PANICS.with(|p| p.borrow_mut().push(text.clone()));
        }
        text
    })
}

/// Run `f`, a case of another property: its library calls are watched for effects (probe), and their
/// panics are returned.
pub fn observed(f: impl FnOnce()) -> (Result<(), String>, Vec<String>) {
    let level = IN_LIB.with(|l| *l.borrow()) + 1;
    let before = LEVEL.with(|l| l.replace(level));
    PANICS.with(|p| p.borrow_mut().clear());
    let r = guarded(f);
    LEVEL.with(|l| l.set(before));
    (r, PANICS.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

pub fn hash_of(h: &impl Hash) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, thorough: bool) -> Self {
        Ctx {
            prop,
            seed,
            index: 0,
            thorough,
            verbose: false,
            evaluations: 0,
            events: 0,
            classes: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            violation_count: 0,
            known: BTreeMap::new(),
            problems: vec![],
        }
    }
    /// One observed library call (call + return).
    pub fn lib<T>(&mut self, op: &str, witness: impl Fn() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        self.events += 1;
        match crate::probe::watch(|| guarded(f)) {
            Ok(t) => Some(t),
            Err(p) => {
                self.violation(format!("{op} panicked: {p}"), witness());
                None
            }
        }
    }
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.to_owned()).or_insert(0) += 1;
    }
    /// Count one oracle decision. `nontrivial` by the property's rule.
    pub fn decided(&mut self, key: &impl Hash, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let h = hash_of(key);
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(h);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn violation(&mut self, what: impl Into<String>, witness: Value) {
        self.violation_count += 1;
        let what = what.into();
        if self.verbose {
            println!("violated: {what}\nwitness: {witness:#}");
        }
        if self.violations.len() < 20 {
            self.violations.push(Violation { index: self.index, what, witness });
        }
    }
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String, witness: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.violation(what(), witness());
        }
        ok
    }
    pub fn known(&mut self, sig: &str, example: impl FnOnce() -> String) {
        let e = self.known.entry(sig.to_owned()).or_insert((0, String::new()));
        e.0 += 1;
        if e.1.is_empty() {
            e.1 = example();
        }
    }
    /// The harness could not decide (never a violation).
    pub fn problem(&mut self, what: impl Into<String>) {
        if self.problems.len() < 20 {
            self.problems.push(what.into());
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evaluations += o.evaluations;
        self.events += o.events;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.violation_count += o.violation_count;
        self.violations.extend(o.violations);
        for (k, (n, e)) in o.known {
            let x = self.known.entry(k).or_insert((0, String::new()));
            x.0 += n;
            if x.1.is_empty() {
                x.1 = e;
            }
        }
        self.problems.extend(o.problems);
    }
}

/// Shorten long strings inside a witness or sample, for readability only.
pub fn clip(v: &Value, max: usize) -> Value {
    match v {
        Value::String(s) if s.len() > max => {
            let head: String = s.chars().take(max / 2).collect();
            json!(format!("{head}…({} bytes)", s.len()))
        }
        Value::Array(a) => Value::Array(a.iter().take(40).map(|x| clip(x, max)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), clip(x, max))).collect()),
        _ => v.clone(),
    }
}
