//! The heart of the simulator: one tape of choices decides everything that happens in a run.
//!
//! A run draws every decision (workload, stream behaviour, faults, schedule, hash seed) with
//! [`choose`]. In generation mode the values come from a PRNG seeded with (VERIF_SEED, property, run)
//! and are recorded; in replay mode they come from the recorded tape, and an exhausted tape yields 0,
//! which by convention is always the simplest alternative. A run is thus a pure function of its tape.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub struct Prng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(mix(seed ^ 0x9E37_79B9_7F4A_7C15))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub enum Mode {
    Gen(Prng),
    Replay(Vec<u64>),
}

pub struct Core {
    mode: Mode,
    pub tape: Vec<u64>,
    pos: usize,
    pub hash: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub gauges: BTreeMap<&'static str, u64>,
    pub trace: Option<Vec<String>>,
    pub nontrivial: bool,
    pub evals: u64,
    pub sample: Option<String>,
    /// violation noticed at a place that cannot return it (inside a callback)
    pub pending: Option<Viol>,
    pub thorough: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type Res<T> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: String) -> Res<T> {
    Err(Viol {
        class: class.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::core::Viol { class: $class.to_string(), msg: format!($($arg)*) });
        }
    };
}

#[macro_export]
macro_rules! tr {
    ($($arg:tt)*) => {
        if $crate::core::tracing() {
            let s = { let _p = $crate::mem::pause(); format!($($arg)*) };
            $crate::core::trace_line(s);
        }
    };
}

pub type Ctx = Arc<Mutex<Core>>;

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

const MAX_TAPE: usize = 400_000;

impl Core {
    pub fn new(mode: Mode, trace: bool, thorough: bool) -> Core {
        Core {
            mode,
            tape: Vec::new(),
            pos: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            steps: 0,
            step_limit: 20_000_000,
            sim_ns: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            gauges: BTreeMap::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            nontrivial: false,
            evals: 0,
            sample: None,
            pending: None,
            thorough,
        }
    }

    fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Gen(p) => {
                if self.tape.len() >= MAX_TAPE {
                    0
                } else {
                    // multiply-shift keeps the draw unbiased enough and fast
                    ((p.next() as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        if self.tape.len() < MAX_TAPE {
            self.tape.push(v);
            if SPILLING.load(Ordering::Relaxed) {
                if let Some(f) = SPILL.lock().unwrap_or_else(|p| p.into_inner()).as_mut() {
                    let _ = f.write_all(format!("{},", v).as_bytes());
                }
            }
        }
        v
    }
}

static SPILLING: AtomicBool = AtomicBool::new(false);
static SPILL: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Writes every draw to a file at once, so that the tape survives the death of the process.
pub fn spill_to(path: &str) {
    if let Ok(f) = std::fs::File::create(path) {
        *SPILL.lock().unwrap_or_else(|p| p.into_inner()) = Some(f);
        SPILLING.store(true, Ordering::Relaxed);
    }
}

pub fn install(ctx: Option<Ctx>) {
    CTX.with(|c| *c.borrow_mut() = ctx);
}

pub fn current() -> Ctx {
    CTX.with(|c| c.borrow().clone()).expect("no simulation context")
}

pub fn with<R>(f: impl FnOnce(&mut Core) -> R) -> R {
    let _p = crate::mem::pause();
    crate::sched::ensure_baton();
    CTX.with(|c| {
        let c = c.borrow();
        let c = c.as_ref().expect("no simulation context");
        let mut g = match c.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(&mut g)
    })
}

/// Draws a value in [0, n).
pub fn choose(n: u64) -> u64 {
    with(|c| c.choose(n))
}

/// Draws a value in [lo, hi].
pub fn range(lo: u64, hi: u64) -> u64 {
    if hi <= lo {
        return lo;
    }
    let span = hi - lo;
    if span == u64::MAX {
        let h = choose(1 << 32);
        let l = choose(1 << 32);
        (h << 32) | l
    } else {
        lo + choose(span + 1)
    }
}

/// True with probability num/den; the simplest alternative is false.
pub fn chance(num: u64, den: u64) -> bool {
    choose(den) >= den - num.min(den)
}

pub fn pick<T: Clone>(v: &[T]) -> T {
    v[choose(v.len() as u64) as usize].clone()
}

/// Index drawn with the given weights; index 0 should be the simplest.
pub fn weighted(w: &[u64]) -> usize {
    let total: u64 = w.iter().sum();
    let mut x = choose(total);
    for (i, k) in w.iter().enumerate() {
        if x < *k {
            return i;
        }
        x -= k;
    }
    w.len() - 1
}

/// Records an event in the run's history digest.
pub fn ev(code: u64, a: u64, b: u64) {
    with(|c| {
        let mut h = c.hash;
        for x in [code, a, b] {
            h = (h ^ x).wrapping_mul(0x0000_0100_0000_01b3);
            h ^= h >> 29;
        }
        c.hash = h;
    })
}

pub fn ev_bytes(code: u64, b: &[u8]) {
    ev(code, b.len() as u64, digest(b));
}

pub fn digest(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn fault(name: &'static str) {
    with(|c| {
        *c.faults.entry(name).or_insert(0) += 1;
        c.nontrivial = true;
    });
}

/// A rare condition was reached.
pub fn probe(name: &'static str) {
    with(|c| *c.probes.entry(name).or_insert(0) += 1);
}

/// Largest value seen of a measured quantity.
pub fn gauge(name: &'static str, v: u64) {
    with(|c| {
        let g = c.gauges.entry(name).or_insert(0);
        *g = (*g).max(v);
    });
}

pub fn nontrivial() {
    with(|c| c.nontrivial = true);
}

pub fn eval(n: u64) {
    with(|c| c.evals += n);
}

pub fn sample(f: impl FnOnce() -> String) {
    with(|c| {
        if c.sample.is_none() {
            c.sample = Some(f());
        }
    })
}

pub fn thorough() -> bool {
    with(|c| c.thorough)
}

pub fn tracing() -> bool {
    with(|c| c.trace.is_some())
}

pub fn trace_line(s: String) {
    with(|c| {
        if let Some(t) = &mut c.trace {
            if t.len() < 5000 {
                t.push(s);
            }
        }
    })
}

pub fn pending(class: &str, msg: String) {
    with(|c| {
        if c.pending.is_none() {
            c.pending = Some(Viol {
                class: class.to_string(),
                msg,
            });
        }
    })
}

pub fn take_pending() -> Res<()> {
    match with(|c| c.pending.take()) {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

pub fn advance(ns: u64) {
    with(|c| c.sim_ns += ns);
}

pub fn steps() -> u64 {
    with(|c| c.steps)
}

pub struct StepLimit;

/// Counts one observable step (stream call, callback). Exceeding the run's budget means that an
/// operation does not terminate within any reasonable bound; the run is unwound.
pub fn step() {
    let over = with(|c| {
        c.steps += 1;
        c.steps > c.step_limit
    });
    if over {
        std::panic::panic_any(StepLimit);
    }
}

/// Limits the number of steps until the returned guard value is restored.
pub fn set_step_budget(n: u64) {
    with(|c| c.step_limit = c.steps.saturating_add(n));
}

/// More data to move allows more steps.
pub fn grant_steps(n: u64) {
    with(|c| c.step_limit = c.step_limit.saturating_add(n));
}

pub fn clear_step_budget() {
    with(|c| c.step_limit = c.steps.saturating_add(20_000_000));
}
