//! Case runner: counts, samples, panic and hang capture, deterministic RNG.
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static CASE_NO: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn string(&mut self, alphabet: &[&str], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failure: Option<(String, String)>,
    pub rule: String,
    pub start: Instant,
    pub budget: Duration,
    pub only: Option<u64>,
    pub trace: Option<std::path::PathBuf>,
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("panic at {}: {}", loc, msg);
    }));
}

impl Ctx {
    pub fn failed(&self) -> bool { self.failure.is_some() }
    /// More cases wanted?
    pub fn more(&self) -> bool { self.failure.is_none() && self.start.elapsed() < self.budget }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }

    /// Run one case. Returns false when the run should stop.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, input: &str, nontrivial: bool, f: F) -> bool {
        if !self.more() { return false; }
        let no = CASE_NO.fetch_add(1, Ordering::SeqCst);
        if let Some(o) = self.only { if o != no { return true; } }
        {
            let mut c = CURRENT.lock().unwrap();
            c.clear();
            c.push_str(input);
        }
        if let Some(p) = &self.trace { let _ = std::fs::write(p, format!("case {}\n{}", no, input)); }
        self.evals += 1;
        if nontrivial {
            let mut h = DefaultHasher::new();
            input.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.distinct.len() % 997 == 0)) {
                self.samples.push(input.to_string());
            }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(LAST_PANIC.lock().unwrap().clone()),
        };
        if let Err(m) = r {
            self.failure = Some((format!("case {}: {}", no, input), m));
            return false;
        }
        true
    }
}

/// Run a closure, turning a panic into None
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
