//! Allocator and instruction seams. Counts what the code under test allocates on the current thread
//! (simulator code runs under `pause`), and offers allocations as scheduling points.
//!
//! The crate under test is compiled with LLVM's edge instrumentation (see .cargo/config.toml), whose
//! callback is defined here: it counts the control-flow edges library code executes (work) and offers
//! them as scheduling points (preemption in the middle of library code).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

struct Tls {
    on: Cell<bool>,
    paused: Cell<u32>,
    live: Cell<i64>,
    peak: Cell<i64>,
    largest: Cell<u64>,
    count: Cell<u64>,
    total: Cell<u64>,
    yielding: Cell<bool>,
    edges: Cell<u64>,
    /// edge count at which the work budget is exhausted, at which the task is preempted next
    limit: Cell<u64>,
    next: Cell<u64>,
    stop: Cell<u64>,
    preempting: Cell<bool>,
}

thread_local! {
    static T: Tls = const { Tls {
        on: Cell::new(false), paused: Cell::new(0), live: Cell::new(0), peak: Cell::new(0),
        largest: Cell::new(0), count: Cell::new(0), total: Cell::new(0), yielding: Cell::new(false), edges: Cell::new(0), limit: Cell::new(u64::MAX),
        next: Cell::new(u64::MAX), stop: Cell::new(u64::MAX), preempting: Cell::new(false),
    } };
}

/// Requests beyond this are refused (the process then aborts): no real machine limit is involved.
const HARD_LIMIT: usize = 6 << 30;

#[inline]
fn note(delta: i64, req: usize) {
    let y = T
        .try_with(|t| {
            if !t.on.get() || t.paused.get() > 0 {
                return false;
            }
            let l = t.live.get() + delta;
            t.live.set(l);
            if l > t.peak.get() {
                t.peak.set(l);
            }
            if req > 0 {
                t.count.set(t.count.get() + 1);
                t.total.set(t.total.get() + req as u64);
                if req as u64 > t.largest.get() {
                    t.largest.set(req as u64);
                }
            }
            req > 0 && t.yielding.get()
        })
        .unwrap_or(false);
    if y {
        let _p = pause();
        // the allocator must not unwind: a task of a run that was given up goes on to its next seam
        let _ = std::panic::catch_unwind(|| crate::sched::yield_point(crate::sched::Y_ALLOC));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        note(new as i64 - l.size() as i64, new);
        System.realloc(p, l, new)
    }
}

pub struct Pause(());
pub fn pause() -> Pause {
    let _ = T.try_with(|t| t.paused.set(t.paused.get() + 1));
    Pause(())
}
impl Drop for Pause {
    fn drop(&mut self) {
        let _ = T.try_with(|t| t.paused.set(t.paused.get() - 1));
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Usage {
    /// bytes still held at the end, relative to the start
    pub live: i64,
    pub peak: i64,
    pub largest: u64,
    pub count: u64,
    pub total: u64,
    /// control-flow edges executed
    pub edges: u64,
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_start: *mut u32, _end: *mut u32) {}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    let _ = T.try_with(|t| {
        if t.on.get() && t.paused.get() == 0 {
            let n = t.edges.get() + 1;
            t.edges.set(n);
            if n >= t.stop.get() {
                // the seam is off before any other (instrumented) function is entered
                t.paused.set(1);
                at_edge(t);
                t.paused.set(0);
            }
        }
    });
}

#[cold]
#[inline(never)]
fn at_edge(t: &Tls) {
    if t.edges.get() >= t.limit.get() {
        // cannot be unwound from arbitrary code: the process ends, and the driver reports the run
        eprintln!("work budget exhausted");
        std::process::abort();
    }
    if t.edges.get() >= t.next.get() {
        t.next.set(u64::MAX);
        let gap = if std::thread::panicking() {
            None
        } else {
            std::panic::catch_unwind(|| {
                crate::sched::preempt();
                crate::sched::next_gap()
            })
            .unwrap_or(None)
        };
        t.next.set(gap.map(|g| t.edges.get() + g).unwrap_or(u64::MAX));
    }
    t.stop.set(t.limit.get().min(t.next.get()));
}

/// Limits the edges library code may execute within the next `measure`.
pub fn work_limit(n: u64) {
    T.with(|t| {
        t.limit.set(n);
    });
}

/// Lets library code on this thread be preempted at control-flow edges.
pub fn preemptible(on: bool) {
    T.with(|t| t.preempting.set(on));
}

/// Runs library code with allocation accounting.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Usage) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            let _ = T.try_with(|t| t.on.set(false));
        }
    }
    T.with(|t| {
        t.live.set(0);
        t.peak.set(0);
        t.largest.set(0);
        t.count.set(0);
        t.total.set(0);
        t.edges.set(0);
        let first = if t.preempting.get() { crate::sched::next_gap() } else { None };
        t.next.set(first.unwrap_or(u64::MAX));
        t.stop.set(t.limit.get().min(t.next.get()));
        t.on.set(true);
    });
    let off = Off;
    let r = f();
    drop(off);
    let u = T.with(|t| Usage {
        live: t.live.get(),
        peak: t.peak.get(),
        largest: t.largest.get(),
        count: t.count.get(),
        total: t.total.get(),
        edges: t.edges.get(),
    });
    (r, u)
}

/// Lets allocations of library code on this thread be scheduling points.
pub fn yield_on_alloc(on: bool) {
    T.with(|t| t.yielding.set(on));
}
