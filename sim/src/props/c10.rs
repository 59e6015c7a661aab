//! Factories and tags shared between threads behave as if used alone.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::probe;
use crate::sched::{self, run_preemptible, Job};
use crate::{mem, tr};
use il2_iltags::io::array::ByteArrayReader;
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::util;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const RULE: &str = "one evaluation compares the outcome of one operation executed among others with its outcome when run alone (which in turn is compared with the model); a history is non-trivial if tasks were switched inside operations";

#[derive(Clone, Debug)]
enum What {
    Decode,
    DecodeInto,
    FromBytes,
    Encode,
    ToBytes,
    Size,
    Equal(usize),
    Clone,
    CloneStd,
    Create(u64),
    Scan,
    Read,
}

#[derive(Clone, Debug)]
struct Op {
    what: What,
    tag: usize,
    src: SrcKind,
    snk: SnkKind,
    plan: Plan,
    /// bytes to decode when not those of the tag
    bytes: Option<Vec<u8>>,
    cb: Option<(u64, u8, probe::Spec)>,
}

struct World {
    reg: Reg,
    factory: ILStandardTagFactory,
    models: Vec<MTag>,
    bytes: Vec<Vec<u8>>,
    tags: Vec<Box<dyn ILTag>>,
    all: Vec<u8>,
}

/// Sinks whose set-up draws nothing that matters, so that executions of an operation are comparable.
const SINKS: [SnkKind; 8] = [
    SnkKind::Vec,
    SnkKind::Array,
    SnkKind::Cursor,
    SnkKind::WriteWriter,
    SnkKind::WriteVec,
    SnkKind::Seekable,
    SnkKind::User,
    SnkKind::Pair,
];

fn gen_op(w: &World) -> Op {
    let tag = choose(w.models.len() as u64) as usize;
    let what = match weighted(&[8, 2, 4, 5, 4, 3, 3, 3, 1, 1, 2, 2]) {
        0 => What::Decode,
        1 => What::DecodeInto,
        2 => What::FromBytes,
        3 => What::Encode,
        4 => What::ToBytes,
        5 => What::Size,
        6 => What::Equal(choose(w.models.len() as u64) as usize),
        7 => What::Clone,
        8 => What::CloneStd,
        9 => What::Create(if chance(1, 2) { choose(40) } else { pick(&ID_POOL) }),
        10 => What::Scan,
        _ => What::Read,
    };
    let len = w.bytes[tag].len();
    let mut plan = Plan::clean();
    if chance(1, 2) {
        plan.frag = Frag::Fixed(len / 200 + 1 + choose(8) as usize);
    }
    let mut bytes = None;
    let mut cb = None;
    let mut src = pick_src();
    if len > 3000 || matches!(src, SrcKind::BufSeekable | SrcKind::ReadBuf) {
        src = pick(&[SrcKind::Array, SrcKind::ReadReader, SrcKind::Cursor]);
    }
    if chance(1, 3) {
        match choose(5) {
            0 => {
                plan.fail = Some(Fail {
                    at: choose(len as u64 + 1),
                    how: FailHow::Err(pick(&HARD_KINDS)),
                    sticky: chance(1, 2),
                    partial: chance(1, 2),
                    id: 100 + choose(900),
                });
                src = pick(&SRC_FAULTY);
            }
            1 => {
                plan.stall_at = Some(1 + choose(6));
                src = SrcKind::ReadReader;
            }
            2 => {
                plan.abandon_at = Some(1 + choose(8));
                src = SrcKind::ReadReader;
            }
            3 => {
                let mut b = w.bytes[tag].clone();
                if chance(1, 2) {
                    b.truncate(choose(len as u64 + 1) as usize);
                } else if !b.is_empty() {
                    let i = choose(len as u64) as usize;
                    b[i] ^= 1 << choose(8);
                }
                // what would take real memory is not interesting here
                let mut p = Parser::new(&w.reg);
                let _ = p.tag(&b);
                if p.claimed < 1_000_000 {
                    core::fault("damaged input");
                    bytes = Some(b);
                }
            }
            _ => cb = Some((choose(4), choose(3) as u8, probe::Spec::draw())),
        }
    }
    Op {
        what,
        tag,
        src,
        snk: if len > 3000 { pick(&[SnkKind::Vec, SnkKind::WriteWriter]) } else { pick(&SINKS) },
        plan,
        bytes,
        cb,
    }
}

fn sig_tag(t: &dyn ILTag, reg: &Reg) -> String {
    match extract(t, reg) {
        Ok(m) => {
            let s = format!("{:?}", m);
            format!("tag {} {:016x}", t.id(), core::digest(s.as_bytes()))
        }
        Err(e) => e,
    }
}

/// The expected outcome according to the model, for operations nothing disturbs.
fn expected(w: &World, op: &Op) -> Option<String> {
    if op.cb.is_some() || op.bytes.is_some() || op.plan.fail.is_some() || op.plan.abandon_at.is_some() {
        return None;
    }
    let m = &w.models[op.tag];
    let tag = format!("tag {} {:016x}", m.id, core::digest(format!("{:?}", m).as_bytes()));
    let b = &w.bytes[op.tag];
    Some(match &op.what {
        What::Decode | What::DecodeInto | What::FromBytes | What::Clone | What::Read => tag,
        What::Encode | What::ToBytes => format!("bytes {} {:016x}", b.len(), core::digest(b)),
        What::Size => format!("size {} {}", b.len(), enc_value(m).len()),
        What::Equal(j) => format!("equal {}", *b == w.bytes[*j]),
        What::CloneStd => return None,
        What::Create(id) => match w.reg.kind(*id) {
            Some(_) => format!("created {}", id),
            None => "nothing".into(),
        },
        What::Scan => {
            let mut s = String::new();
            let mut at = 0;
            for b in &w.bytes {
                s += &format!("{}+{} ", at, b.len());
                at += b.len();
            }
            format!("extents {:016x}", core::digest(s.as_bytes()))
        }
    })
}

/// Executes one operation. Everything it needs is in the operation, so that alone it always gives the
/// same outcome.
fn exec(w: &World, op: &Op) -> Res<String> {
    probe::set(probe::Ctl {
        on: op.cb.is_some(),
        fail: op.cb.map(|(k, ph, s)| (k, ph, Some(s))),
        ..Default::default()
    });
    let f = &w.factory;
    let bytes: &[u8] = op.bytes.as_deref().unwrap_or(&w.bytes[op.tag]);
    let t = w.tags[op.tag].as_ref();
    let r = catch_unwind(AssertUnwindSafe(|| -> String {
        match &op.what {
            What::Decode => with_source(op.src, bytes, op.plan.clone(), |s, _| {
                let r = mem::measure(|| f.deserialize(s.r())).0;
                match r {
                    Ok(t) => sig_tag(t.as_ref(), &w.reg),
                    Err(e) => format!("{:?}", e),
                }
            }),
            What::DecodeInto => {
                let m = &w.models[op.tag];
                let mut t = blank(m.id, m.kind);
                with_source(op.src, bytes, op.plan.clone(), |s, _| {
                    let r = mem::measure(|| f.deserialize_into(s.r(), t.as_mut())).0;
                    match r {
                        Ok(()) => sig_tag(t.as_ref(), &w.reg),
                        Err(e) => format!("{:?}", e),
                    }
                })
            }
            What::FromBytes => match mem::measure(|| f.from_bytes(bytes)).0 {
                Ok(t) => sig_tag(t.as_ref(), &w.reg),
                Err(e) => format!("{:?}", e),
            },
            What::Encode => {
                let (r, out) = with_sink(op.snk, w.bytes[op.tag].len(), op.plan.clone(), |s, _| mem::measure(|| t.serialize(s)).0);
                match r {
                    Ok(()) => format!("bytes {} {:016x}", out.len(), core::digest(&out)),
                    Err(e) => format!("{:?} after {}", e, out.len()),
                }
            }
            What::ToBytes => match mem::measure(|| t.to_bytes()).0 {
                Ok(b) => format!("bytes {} {:016x}", b.len(), core::digest(&b)),
                Err(e) => format!("{:?}", e),
            },
            What::Size => {
                let (a, b) = mem::measure(|| (t.size(), t.value_size())).0;
                format!("size {} {}", a, b)
            }
            What::Equal(j) => format!("equal {}", mem::measure(|| util::iltag_are_equal(t, w.tags[*j].as_ref())).0),
            What::Clone => match mem::measure(|| util::iltag_clone_with_factory(f, t)).0 {
                Ok(t) => sig_tag(t.as_ref(), &w.reg),
                Err(e) => format!("{:?}", e),
            },
            What::CloneStd => match mem::measure(|| util::iltag_clone(t)).0 {
                Ok(t) => match t.to_bytes() {
                    Ok(b) => format!("bytes {} {:016x}", b.len(), core::digest(&b)),
                    Err(e) => format!("{:?}", e),
                },
                Err(e) => format!("{:?}", e),
            },
            What::Create(id) => match mem::measure(|| f.create_tag(*id)).0 {
                Some(t) => format!("created {}", t.id()),
                None => "nothing".into(),
            },
            What::Scan => {
                let mut s = String::new();
                mem::measure(|| {
                    let mut r = ByteArrayReader::new(&w.all);
                    let mut sc = RawTagScanner::new(&mut r);
                    while let Ok(Some(o)) = sc.next_tag() {
                        let _p = mem::pause();
                        s += &format!("{}+{} ", o.offset(), o.size());
                    }
                });
                format!("extents {:016x}", core::digest(s.as_bytes()))
            }
            What::Read => sig_tag(t, &w.reg),
        }
    }));
    probe::off();
    match r {
        Ok(s) => Ok(s),
        Err(p) if p.downcast_ref::<Abandon>().is_some() => Ok("abandoned".into()),
        Err(p) => resume_unwind(p),
    }
}

pub fn run() -> Res<()> {
    let reg = gen_reg();
    let models = gen_tags(&reg, 4);
    let bytes: Vec<Vec<u8>> = models.iter().map(enc).collect();
    let w = World {
        factory: make_factory(&reg),
        tags: models.iter().map(build).collect(),
        all: enc_all(&models),
        models,
        bytes,
        reg,
    };
    let n = 2 + if chance(1, 12) { choose(9) } else { choose(3) } as usize;
    let mut plans: Vec<Vec<(Op, String)>> = Vec::new();
    for _ in 0..n {
        let mut v = Vec::new();
        for _ in 0..1 + choose(if chance(1, 25) { 40 } else { 5 }) {
            let op = gen_op(&w);
            let alone = exec(&w, &op)?;
            if let Some(want) = expected(&w, &op) {
                core::eval(1);
                ensure!(alone == want, "wrong-alone", "{:?} on {} gave {} instead of {}", op.what, w.models[op.tag].short(), alone, want);
            }
            tr!("{:?} alone: {}", op, alone);
            v.push((op, alone));
        }
        plans.push(v);
    }
    let gap = pick(&[0u64, 6, 40, 300, 2500]);
    let alloc = pick(&[0u64, 4, 12]);
    let ops: usize = plans.iter().map(|p| p.len()).sum();
    sample(|| format!("{} tasks, {} operations on {} shared tags ({} bytes), preemption every ~{} edges", n, ops, w.tags.len(), w.all.len(), gap));
    let w = Arc::new(w);
    let plans = Arc::new(plans);
    let jobs: Vec<Job> = (0..n)
        .map(|i| {
            let (w, plans) = (w.clone(), plans.clone());
            Box::new(move || {
                mem::yield_on_alloc(alloc > 0);
                mem::preemptible(gap > 0);
                for (k, (op, alone)) in plans[i].iter().enumerate() {
                    sched::yield_point(sched::Y_OP);
                    tr!("task {} operation {}: {:?}", i, k, op.what);
                    let got = exec(&w, op)?;
                    core::ev(0xa1, (i * 64 + k) as u64, core::digest(got.as_bytes()));
                    core::eval(1);
                    ensure!(
                        got == *alone,
                        "interference",
                        "task {}: {:?} of tag {} gave {} among others, {} alone",
                        i,
                        op.what,
                        w.models[op.tag].short(),
                        got,
                        alone
                    );
                }
                mem::yield_on_alloc(false);
                mem::preemptible(false);
                Ok(())
            }) as Job
        })
        .collect();
    run_preemptible(jobs, pick(&[4, 12, 16]), alloc, gap)?;
    // nothing stays behind
    for v in plans.iter() {
        let (op, alone) = &v[v.len() - 1];
        let got = exec(&w, op)?;
        core::eval(1);
        ensure!(got == *alone, "residue", "{:?} of {} gave {} afterwards, {} before", op.what, w.models[op.tag].short(), got, alone);
    }
    Ok(())
}
