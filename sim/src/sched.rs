//! Baton scheduler: the tasks of a run are real threads of which exactly one runs at any time. At
//! every seam (stream call, callback, allocation) the running task reaches a yield point and the
//! tape decides who runs next. Waiting on simulated resources (pipes) is known to the scheduler, so a
//! state in which nobody can run is a deadlock and is reported.
//!
//! Should the code under test really block in the operating system (for example on a mutex held by
//! a parked task), the monitor notices that the baton holder sleeps without progress, sets it aside
//! and schedules another task; the blocked task rejoins when it wakes up.
use crate::core::{self, Ctx, Res, Viol};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub const Y_IO: u64 = 1;
pub const Y_CALLBACK: u64 = 2;
pub const Y_ALLOC: u64 = 3;
pub const Y_OP: u64 = 4;
pub const Y_EDGE: u64 = 5;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Blocked(u64),
    /// stalled until every other task is done (or stalled as well)
    Stalled,
    OsBlocked,
    Done,
}

struct State {
    current: usize,
    tasks: Vec<St>,
    tids: Vec<String>,
    switches: u64,
    points: u64,
    os_blocks: u64,
    preempted: u64,
    abort: Option<Viol>,
}

pub struct Sched {
    m: Mutex<State>,
    cv: Condvar,
    progress: AtomicU64,
    aside: Vec<AtomicBool>,
    /// probability of considering a switch at a yield point, in 1/16
    eager: u64,
    alloc_eager: u64,
    /// scale of the number of edges between preemptions; 0: none
    gap: u64,
}

thread_local! {
    static TASK: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// Unwinds a task after the run was given up.
pub struct Aborted;

fn lock(s: &Sched) -> MutexGuard<'_, State> {
    s.m.lock().unwrap_or_else(|p| p.into_inner())
}

fn task() -> Option<(Arc<Sched>, usize)> {
    TASK.try_with(|t| t.try_borrow().ok().and_then(|t| t.clone())).ok().flatten()
}

pub fn in_task() -> bool {
    task().is_some()
}

impl Sched {
    /// Chooses the next task; the caller holds the state lock and gives up the baton.
    fn pick_next(&self, g: &mut State) {
        if g.abort.is_some() {
            return;
        }
        let mut run: Vec<usize> = (0..g.tasks.len()).filter(|i| g.tasks[*i] == St::Runnable).collect();
        if run.is_empty() {
            let os = g.tasks.iter().any(|t| *t == St::OsBlocked);
            if os {
                if g.tasks.iter().any(|t| *t == St::Stalled) {
                    g.abort = Some(Viol {
                        class: "blocked-by-stalled-operation".into(),
                        msg: "a task is blocked inside the library by another task's stalled stream".into(),
                    });
                    self.cv.notify_all();
                } else {
                    g.current = usize::MAX; // the OS-blocked task takes over when it wakes up
                }
                return;
            }
            for t in g.tasks.iter_mut() {
                if *t == St::Stalled {
                    *t = St::Runnable;
                }
            }
            run = (0..g.tasks.len()).filter(|i| g.tasks[*i] == St::Runnable).collect();
            if run.is_empty() {
                if g.tasks.iter().any(|t| *t != St::Done) {
                    g.abort = Some(Viol {
                        class: "deadlock".into(),
                        msg: format!("no task can run: {:?}", g.tasks),
                    });
                }
                g.current = usize::MAX;
                self.cv.notify_all();
                return;
            }
        }
        let next = if run.len() == 1 { run[0] } else { core::pick(&run) };
        if next != g.current {
            g.switches += 1;
        }
        g.current = next;
        self.cv.notify_all();
    }

    fn wait_turn(&self, mut g: MutexGuard<'_, State>, me: usize) {
        loop {
            if g.abort.is_some() {
                drop(g);
                std::panic::panic_any(Aborted);
            }
            if g.current == me && g.tasks[me] == St::Runnable {
                return;
            }
            g = self.cv.wait(g).unwrap_or_else(|p| p.into_inner());
        }
    }

    /// A task that had been set aside is back: take part in the schedule again.
    fn rejoin(&self, me: usize) {
        let mut g = lock(self);
        if g.tasks[me] == St::OsBlocked {
            g.tasks[me] = St::Runnable;
            self.aside[me].store(false, Ordering::SeqCst);
            if g.current == usize::MAX {
                g.current = me;
            }
        }
        self.wait_turn(g, me);
    }
}

/// Called before any access to the shared run context.
#[inline]
pub fn ensure_baton() {
    let t = TASK.try_with(|t| match t.try_borrow() {
        Ok(t) => match t.as_ref() {
            Some((s, me)) if s.aside[*me].load(Ordering::Relaxed) => Some((s.clone(), *me)),
            _ => None,
        },
        Err(_) => None,
    });
    if let Ok(Some((s, me))) = t {
        s.rejoin(me);
    }
}

pub fn yield_point(kind: u64) {
    if std::thread::panicking() {
        return;
    }
    let _p = crate::mem::pause();
    let (s, me) = match task() {
        Some(t) => t,
        None => return,
    };
    s.progress.fetch_add(1, Ordering::Relaxed);
    ensure_baton();
    let mut g = lock(&s);
    if g.abort.is_some() {
        drop(g);
        std::panic::panic_any(Aborted);
    }
    g.points += 1;
    let others = (0..g.tasks.len()).any(|i| i != me && g.tasks[i] == St::Runnable);
    if !others {
        return;
    }
    let eager = if kind == Y_ALLOC { s.alloc_eager } else { s.eager };
    if eager < 16 && !core::chance(eager, 16) {
        return;
    }
    s.pick_next(&mut g);
    if g.current != me {
        core::ev(0x5c, g.current as u64, kind);
        s.wait_turn(g, me);
    }
}

/// Preempts the current task in the middle of library code. Never unwinds.
pub fn preempt() {
    let _p = crate::mem::pause();
    let (s, me) = match task() {
        Some(t) => t,
        None => return,
    };
    s.progress.fetch_add(1, Ordering::Relaxed);
    ensure_baton();
    let mut g = lock(&s);
    if g.abort.is_some() {
        return;
    }
    let others = (0..g.tasks.len()).any(|i| i != me && g.tasks[i] == St::Runnable);
    if !others {
        return;
    }
    g.points += 1;
    s.pick_next(&mut g);
    if g.current != me {
        g.preempted += 1;
        core::ev(0x5d, g.current as u64, Y_EDGE);
        s.wait_turn(g, me);
    }
}

/// Edges until the next preemption.
pub fn next_gap() -> Option<u64> {
    let (s, _) = task()?;
    if s.gap == 0 {
        return None;
    }
    let others = {
        let g = lock(&s);
        g.abort.is_none() && g.tasks.iter().filter(|t| **t == St::Runnable).count() > 1
    };
    if !others {
        return None;
    }
    match core::choose(s.gap + 1) {
        0 => None,
        n => Some(n),
    }
}

/// Blocks the current task until [`wake`] is called with the key.
pub fn block(key: u64) {
    let _p = crate::mem::pause();
    let (s, me) = task().expect("block outside of a task");
    s.progress.fetch_add(1, Ordering::Relaxed);
    let mut g = lock(&s);
    g.tasks[me] = St::Blocked(key);
    core::ev(0xb1, me as u64, key);
    s.pick_next(&mut g);
    s.wait_turn(g, me);
}

pub fn wake(key: u64) {
    let _p = crate::mem::pause();
    if let Some((s, _)) = task() {
        let mut g = lock(&s);
        for t in g.tasks.iter_mut() {
            if *t == St::Blocked(key) {
                *t = St::Runnable;
            }
        }
    }
}

/// Stalls the current task until all other tasks are done.
pub fn stall_until_others_done() {
    let _p = crate::mem::pause();
    let (s, me) = match task() {
        Some(t) => t,
        None => return,
    };
    s.progress.fetch_add(1, Ordering::Relaxed);
    ensure_baton();
    let mut g = lock(&s);
    g.tasks[me] = St::Stalled;
    core::ev(0xb2, me as u64, 0);
    s.pick_next(&mut g);
    s.wait_turn(g, me);
}

pub struct Report {
    pub switches: u64,
    pub points: u64,
    pub os_blocks: u64,
}

pub type Job = Box<dyn FnOnce() -> Res<()> + Send>;

fn sleeping(tid: &str) -> Option<(bool, String)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f[0] == "S", format!("{} {}", f.get(11)?, f.get(12)?)))
}

/// Runs the tasks to completion under a schedule drawn from the tape.
/// `eager`, `alloc_eager`: chance in 1/16 of considering a switch at a yield point.
pub fn run_tasks(jobs: Vec<Job>, eager: u64, alloc_eager: u64) -> Res<Report> {
    run_preemptible(jobs, eager, alloc_eager, 0)
}

/// The same; library code under `mem::measure` is also preempted at control-flow edges, about every
/// `gap` of them.
pub fn run_preemptible(jobs: Vec<Job>, eager: u64, alloc_eager: u64, gap: u64) -> Res<Report> {
    let n = jobs.len();
    let ctx: Ctx = core::current();
    let first = core::choose(n as u64) as usize;
    let seeds: Vec<u64> = (0..n).map(|_| core::choose(1 << 20)).collect();
    let s = Arc::new(Sched {
        m: Mutex::new(State {
            current: usize::MAX,
            tasks: vec![St::Runnable; n],
            tids: vec![String::new(); n],
            switches: 0,
            points: 0,
            os_blocks: 0,
            preempted: 0,
            abort: None,
        }),
        cv: Condvar::new(),
        progress: AtomicU64::new(0),
        aside: (0..n).map(|_| AtomicBool::new(false)).collect(),
        eager,
        alloc_eager,
        gap,
    });
    let mut hs = Vec::new();
    for (i, job) in jobs.into_iter().enumerate() {
        let s = s.clone();
        let ctx = ctx.clone();
        let seed = seeds[i];
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    crate::hash::set_seed(seed ^ ((i as u64 + 1) << 32));
                    core::install(Some(ctx));
                    TASK.with(|t| *t.borrow_mut() = Some((s.clone(), i)));
                    {
                        let mut g = lock(&s);
                        g.tids[i] = std::fs::read_link("/proc/thread-self")
                            .ok()
                            .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
                            .unwrap_or_default();
                        s.cv.notify_all();
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let g = lock(&s);
                        s.wait_turn(g, i);
                        job()
                    }));
                    crate::mem::yield_on_alloc(false);
                    crate::mem::preemptible(false);
                    let r: Res<()> = match r {
                        Ok(r) => r,
                        Err(p) => match crate::runner::panic_viol(p) {
                            Some(v) => Err(v),
                            None => Ok(()), // aborted; the reason is recorded in the state
                        },
                    };
                    s.progress.fetch_add(1, Ordering::Relaxed);
                    let mut g = lock(&s);
                    s.aside[i].store(false, Ordering::SeqCst);
                    let had_baton = g.current == i || g.current == usize::MAX;
                    g.tasks[i] = St::Done;
                    if let Err(v) = r {
                        if g.abort.is_none() {
                            g.abort = Some(v);
                        }
                        s.cv.notify_all();
                    } else if had_baton {
                        s.pick_next(&mut g);
                    }
                    s.cv.notify_all();
                    drop(g);
                    TASK.with(|t| *t.borrow_mut() = None);
                    core::install(None);
                })
                .expect("thread"),
        );
    }
    // All threads must have registered before the first one runs.
    {
        let mut g = lock(&s);
        while g.tids.iter().any(|t| t.is_empty()) {
            g = s.cv.wait_timeout(g, Duration::from_millis(50)).unwrap_or_else(|p| p.into_inner()).0;
        }
        g.current = first;
        s.cv.notify_all();
        let mut last = (0u64, String::new());
        let mut idle = 0;
        loop {
            if g.tasks.iter().all(|t| *t == St::Done) {
                break;
            }
            let (ng, to) = s
                .cv
                .wait_timeout(g, Duration::from_millis(100))
                .unwrap_or_else(|p| p.into_inner());
            g = ng;
            if !to.timed_out() {
                continue;
            }
            let cur = g.current;
            if cur == usize::MAX || cur >= n || g.tasks[cur] != St::Runnable {
                continue;
            }
            let p = s.progress.load(Ordering::Relaxed);
            match sleeping(&g.tids[cur]) {
                Some((true, cpu)) if last == (p, cpu.clone()) => {
                    idle += 1;
                    last = (p, cpu);
                }
                Some((_, cpu)) => {
                    idle = 0;
                    last = (p, cpu);
                }
                None => idle = 0,
            }
            if idle >= 3 {
                idle = 0;
                g.tasks[cur] = St::OsBlocked;
                g.os_blocks += 1;
                s.aside[cur].store(true, Ordering::SeqCst);
                s.pick_next(&mut g);
                if g.current == usize::MAX && g.tasks.iter().all(|t| matches!(t, St::Done | St::OsBlocked)) {
                    g.abort = Some(Viol {
                        class: "deadlock".into(),
                        msg: "every remaining task is blocked inside the library".into(),
                    });
                    s.cv.notify_all();
                }
            }
            if g.abort.is_some() && g.tasks.iter().any(|t| *t == St::OsBlocked) {
                // these threads may never come back; leave them behind
                break;
            }
        }
    }
    let (abort, rep, lost, preempted) = {
        let g = lock(&s);
        (
            g.abort.clone(),
            Report {
                switches: g.switches,
                points: g.points,
                os_blocks: g.os_blocks,
            },
            g.tasks.iter().any(|t| *t == St::OsBlocked),
            g.preempted,
        )
    };
    if !lost {
        for h in hs {
            let _ = h.join();
        }
    }
    if rep.switches > n as u64 {
        core::nontrivial();
    }
    core::with(|c| {
        *c.faults.entry("context switch").or_insert(0) += rep.switches;
        if preempted > 0 {
            *c.faults.entry("preemption inside library code").or_insert(0) += preempted;
        }
    });
    match abort {
        Some(v) => Err(v),
        None => Ok(rep),
    }
}
