//! Executes single runs, and minimises failing ones.
use crate::core::{self, Core, Mode, Prng, StepLimit, Viol};
use crate::props;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub struct Outcome {
    pub viol: Option<Viol>,
    pub tape: Vec<u64>,
    pub hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub gauges: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub evals: u64,
    pub sample: Option<String>,
    pub trace: Vec<String>,
}

thread_local! {
    static LAST: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// Violation a caught panic stands for; None if the run was being given up anyway.
pub fn panic_viol(p: Box<dyn std::any::Any + Send>) -> Option<Viol> {
    if p.downcast_ref::<crate::sched::Aborted>().is_some() {
        return None;
    }
    if p.downcast_ref::<StepLimit>().is_some() {
        return Some(Viol {
            class: "no-progress".into(),
            msg: "an operation exceeded its step budget".into(),
        });
    }
    let (loc, msg) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
    Some(Viol {
        class: "panic".into(),
        msg: format!("panic at {}: {}", loc, msg),
    })
}

pub fn seed_for(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = core::mix(seed.wrapping_add(0x51ed_270b));
    for b in prop.bytes() {
        h = core::mix(h ^ b as u64);
    }
    core::mix(h ^ core::mix(run))
}

pub fn gen_mode(seed: u64, prop: &str, run: u64) -> Mode {
    Mode::Gen(Prng::new(seed_for(seed, prop, run)))
}

pub fn run_once(prop: &str, mode: Mode, trace: bool, thorough: bool) -> Outcome {
    let f = props::find(prop).expect("property");
    let ctx = Arc::new(Mutex::new(Core::new(mode, trace, thorough)));
    let ctx2 = ctx.clone();
    let h = std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            core::install(Some(ctx2));
            let hs = core::choose(1 << 32);
            crate::hash::set_seed(hs);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.run()));
            let r = match r {
                Ok(r) => r.err(),
                Err(p) => panic_viol(p),
            };
            let r = match r {
                Some(v) => Some(v),
                None => core::take_pending().err(),
            };
            core::install(None);
            r
        })
        .expect("thread");
    let viol = h.join().unwrap_or_else(|_| {
        Some(Viol {
            class: "panic".into(),
            msg: "the run's thread died".into(),
        })
    });
    let mut g = ctx.lock().unwrap_or_else(|p| p.into_inner());
    Outcome {
        viol,
        tape: std::mem::take(&mut g.tape),
        hash: g.hash,
        steps: g.steps,
        sim_ns: g.sim_ns,
        faults: std::mem::take(&mut g.faults),
        probes: std::mem::take(&mut g.probes),
        gauges: std::mem::take(&mut g.gauges),
        nontrivial: g.nontrivial,
        evals: g.evals,
        sample: g.sample.take(),
        trace: g.trace.take().unwrap_or_default(),
    }
}

/// Shrinks a tape while the same class of violation persists. `test` returns the class and how much of
/// the tape was consumed.
pub fn shrink(
    tape: Vec<u64>,
    class: &str,
    mut test: impl FnMut(&[u64]) -> Option<(String, usize)>,
    deadline: std::time::Instant,
) -> (Vec<u64>, u64) {
    let mut best = tape;
    let mut tries = 0u64;
    let strip = |mut v: Vec<u64>| {
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    best = strip(best);
    let mut attempt = |cand: &[u64], tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        match test(cand) {
            Some((c, used)) if c == class => {
                // what the run did not consume is not needed
                let mut v = cand.to_vec();
                v.truncate(used);
                Some(v)
            }
            _ => None,
        }
    };
    loop {
        let before = best.clone();
        // remove chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if std::time::Instant::now() > deadline {
                    return (best, tries);
                }
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                if let Some(b) = attempt(&cand, &mut tries) {
                    best = strip(b);
                } else {
                    // zero the chunk instead
                    if best[i..end].iter().any(|x| *x != 0) {
                        let mut cand = best.clone();
                        cand[i..end].iter_mut().for_each(|x| *x = 0);
                        if let Some(b) = attempt(&cand, &mut tries) {
                            best = strip(b);
                        }
                    }
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi {
                if std::time::Instant::now() > deadline {
                    return (best, tries);
                }
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if let Some(b) = attempt(&cand, &mut tries) {
                    best = strip(b);
                    if i >= best.len() {
                        break;
                    }
                    hi = mid.min(best[i]);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, tries);
        }
    }
}
