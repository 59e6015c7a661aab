//! Every operation finishes within bounded work.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted, Prng};
use crate::mem;
use crate::tr;
use il2_iltags::io::Writer;
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::util::{iltag_are_equal, iltag_clone_with_factory};
use std::collections::BTreeMap;

pub const RULE: &str = "one evaluation compares the work of one library operation (control-flow edges of library code, stream calls and callbacks, allocations) with the bound for its data and nesting depth; a history is non-trivial if the shape is deep or wide, the input damaged, or the stream fragmented or interrupted";

pub fn run() -> Res<()> {
    match weighted(&[10, 6, 6, 4]) {
        0 => healthy(),
        1 => damaged(),
        2 => storm(),
        _ => claims(),
    }
}

// About ten times what the library needs (see `largest_measured` in the evidence: per mille of the
// bound actually used).
const EDGES: u64 = 120;
const CALLS: u64 = 12;
const ALLOCS: u64 = 6;

/// Runs one operation on `n` bytes of data nested `d` deep; `extra` stream calls are the simulator's
/// own doing (interruptions).
fn work<R>(name: &'static str, n: usize, d: usize, extra: u64, f: impl FnOnce() -> R) -> Res<R> {
    let base = (n as u64 + 32) * (d as u64 + 2);
    let (be, bc, ba) = (EDGES * base + extra * 200, CALLS * base + extra, ALLOCS * base + extra);
    // far beyond the bound the operation is ended by force
    mem::work_limit(4 * be + 10_000_000);
    core::set_step_budget(4 * bc + 100_000);
    let s0 = core::steps();
    let (r, u) = mem::measure(f);
    mem::work_limit(u64::MAX);
    let calls = core::steps() - s0;
    core::clear_step_budget();
    core::eval(1);
    core::gauge(name, u.edges * 1000 / be);
    core::gauge("calls, per mille of the bound", calls.saturating_sub(extra) * 1000 / bc);
    core::gauge("allocations, per mille of the bound", u.count * 1000 / ba);
    core::gauge("edges in one operation", u.edges);
    ensure!(
        u.edges <= be && calls <= bc && u.count <= ba,
        "too-much-work",
        "{}: {} bytes nested {} deep took {} edges (bound {}), {} stream calls and callbacks (bound {}), {} allocations (bound {})",
        name,
        n,
        d,
        u.edges,
        be,
        calls,
        bc,
        u.count,
        ba
    );
    Ok(r)
}

fn small() -> MTag {
    MTag {
        id: 3,
        kind: Kind::U8,
        val: Val::Fixed(vec![choose(256) as u8]),
    }
}

/// Registry in which id 40 is a user payload.
fn reg40(strict: bool) -> Reg {
    let mut r = Reg::std(strict);
    r.map.insert(40, Kind::Payload);
    r.map.insert(41, Kind::Dict);
    r
}

/// One container level around `t`.
fn level(t: MTag, k: u64, i: usize) -> MTag {
    match k {
        0 => MTag { id: 22, kind: Kind::Seq, val: Val::Tags(vec![t]) },
        1 => MTag { id: 21, kind: Kind::TagArr, val: Val::Tags(vec![t]) },
        2 | 5 => {
            let mut m = BTreeMap::new();
            m.insert(format!("{}", i % 7), t);
            MTag { id: if k == 2 { 30 } else { 41 }, kind: Kind::Dict, val: Val::Dict(m) }
        }
        3 => MTag {
            id: 40,
            kind: Kind::Payload,
            val: Val::Payload(PVal { a: 1, b: i as u64, c: -1, flag: 1, tag: Some(Box::new(t)), rest: vec![] }),
        },
        _ => MTag {
            id: 22,
            kind: Kind::Seq,
            val: Val::Tags(vec![
                MTag { id: 0, kind: Kind::Null, val: Val::Null },
                t,
                MTag { id: 0, kind: Kind::Null, val: Val::Null },
            ]),
        },
    }
}

fn max_depth() -> u64 {
    if core::thorough() {
        250
    } else {
        60
    }
}

fn wide(n: usize) -> MTag {
    let mut p = Prng::new(choose(1 << 16));
    let ints = |p: &mut Prng| -> Vec<u64> {
        (0..n)
            .map(|_| {
                let x = p.next();
                (x >> 8) >> (x & 63).min(55)
            })
            .collect()
    };
    match choose(8) {
        0 => MTag { id: 22, kind: Kind::Seq, val: Val::Tags(vec![small(); n]) },
        1 => MTag { id: 21, kind: Kind::TagArr, val: Val::Tags(vec![small(); n]) },
        2 => MTag { id: 20, kind: Kind::IntArr, val: Val::Ints(ints(&mut p)) },
        3 => MTag { id: 25, kind: Kind::Oid, val: Val::Ints(ints(&mut p)) },
        4 => {
            let v = small();
            let m = (0..n).map(|i| (format!("key{}", core::mix(i as u64) % 100_000), v.clone())).collect();
            MTag { id: 30, kind: Kind::Dict, val: Val::Dict(m) }
        }
        5 => {
            let m = (0..n).map(|i| (format!("{}", core::mix(i as u64) % 100_000), "v".repeat(i % 4))).collect();
            MTag { id: 31, kind: Kind::StrDict, val: Val::StrDict(m) }
        }
        6 => MTag { id: 17, kind: Kind::Str, val: Val::Str(gen_string(n * 4)) },
        _ => MTag { id: 16, kind: Kind::Bytes, val: Val::Bytes(gen_bytes(n * 8)) },
    }
}

fn bushy(depth: u64, fan: u64) -> MTag {
    if depth == 0 {
        return small();
    }
    let k = choose(3);
    let sub = bushy(depth - 1, fan);
    match k {
        0 => MTag { id: 22, kind: Kind::Seq, val: Val::Tags(vec![sub; fan as usize]) },
        1 => MTag { id: 21, kind: Kind::TagArr, val: Val::Tags(vec![sub; fan as usize]) },
        _ => {
            let m = (0..fan).map(|i| (format!("{}", i), sub.clone())).collect();
            MTag { id: 30, kind: Kind::Dict, val: Val::Dict(m) }
        }
    }
}

/// Something deep, wide, bushy, big or random.
fn shape(reg: &Reg) -> MTag {
    match weighted(&[8, 6, 3, 3, 4]) {
        0 => {
            // tower, possibly of one kind only, around something possibly wide
            let d = if chance(1, 3) { choose(6) } else { choose(max_depth()) };
            let one = if chance(1, 3) { Some(choose(6)) } else { None };
            let mut t = if chance(1, 4) { wide(1 + choose(60) as usize) } else { small() };
            for i in 0..d {
                t = level(t, one.unwrap_or_else(|| choose(6)), i as usize);
            }
            t
        }
        1 => {
            core::nontrivial();
            wide(pick(&[30u64, 200, 300, 1000, 1000, 5000]) as usize + choose(20) as usize)
        }
        2 => {
            let fan = 2 + choose(3);
            bushy(1 + choose(if fan == 2 { 7 } else { 4 }), fan)
        }
        3 => {
            // wide things inside a tower
            let mut t = wide(100 + choose(400) as usize);
            for i in 0..choose(16) {
                t = level(t, choose(6), i as usize);
            }
            t
        }
        _ => {
            let mut g = Gen::new(reg, 1500, 5);
            g.tag()
        }
    }
}

fn note(t: &MTag, n: usize) {
    if t.depth() > 8 || n > 2000 {
        core::nontrivial();
    }
    sample(|| format!("{} bytes, depth {}: {}", n, t.depth(), t.short()));
}

fn healthy() -> Res<()> {
    let reg = reg40(chance(1, 4));
    let f = make_factory(&reg);
    let t = shape(&reg);
    let bytes = enc(&t);
    let (n, d) = (bytes.len(), t.depth());
    note(&t, n);
    tr!("{} bytes depth {} {}", n, d, t.short());
    let real = build_plain(&t);
    let real = real.as_ref();
    let ops = 1 + choose(4);
    for _ in 0..ops {
        match choose(9) {
            0 => {
                let s = work("size", n, d, 0, || real.size())?;
                ensure!(s == n as u64, "wrong-size", "size() is {} for {} bytes", s, n);
            }
            1 => {
                let s = work("value_size", n, d, 0, || real.value_size())?;
                let vs = enc_value(&t).len();
                ensure!(s as usize == vs, "wrong-size", "value_size() is {} for {} bytes", s, vs);
            }
            2 => {
                let b = work("to_bytes", n, d, 0, || real.to_bytes())?;
                ensure!(b.ok().as_deref() == Some(&bytes[..]), "wrong-bytes", "to_bytes of {}", t.short());
            }
            3 => {
                let k = pick(&SNK_ALL);
                let plan = Plan::benign(n);
                let extra = if plan.eintr > 0 { 5 * (n as u64 + 32) } else { 0 };
                let (r, got) = with_sink(k, n, plan, |w, _| work("serialize", n, d, extra, || real.serialize(w)));
                let r = r?;
                ensure!(r.is_ok(), "serialize-failed", "serialize into {:?}: {:?}", k, r.err());
                same_bytes(&got, &bytes, "wrong-bytes", "serialize")?;
            }
            4 => {
                let src = pick_src();
                let plan = Plan::benign(n);
                let extra = if plan.eintr > 0 { 5 * (n as u64 + 32) } else { 0 };
                let r = with_source(src, &bytes, plan, |s, _| work("decode", n, d, extra, || f.deserialize(s.r())))?;
                match r {
                    Ok(x) => same(x.as_ref(), &t, &reg, "decode")?,
                    Err(e) => return core::viol("decode-failed", format!("{:?} from {:?}", e, src)),
                }
            }
            5 => {
                let r = work("from_bytes", n, d, 0, || f.from_bytes(&bytes))?;
                ensure!(r.is_ok(), "decode-failed", "from_bytes: {:?}", r.err());
            }
            6 => {
                let other = build_plain(&t);
                let r = work("iltag_are_equal", 2 * n, d, 0, || iltag_are_equal(real, other.as_ref()))?;
                ensure!(r, "not-equal", "a tag does not equal its copy: {}", t.short());
            }
            7 => {
                let r = work("iltag_clone", 2 * n, d, 0, || iltag_clone_with_factory(&f, real))?;
                ensure!(r.is_ok(), "clone-failed", "clone: {:?}", r.err());
            }
            _ => {
                let mut old = blank(t.id, t.kind);
                let src = pick_src();
                let plan = Plan::benign(n);
                let extra = if plan.eintr > 0 { 5 * (n as u64 + 32) } else { 0 };
                let r = with_source(src, &bytes, plan, |s, _| {
                    work("deserialize_into", n, d, extra, || f.deserialize_into(s.r(), old.as_mut()))
                })?;
                ensure!(r.is_ok(), "decode-failed", "deserialize_into: {:?}", r.err());
            }
        }
    }
    // scanning, also of a sequence with many tags
    if chance(1, 2) {
        let mut all = bytes.clone();
        let many = if chance(1, 3) { choose(2000) } else { choose(20) };
        for _ in 0..many {
            all.extend_from_slice(&[3, 1]);
        }
        let src = pick_src();
        let plan = Plan::benign(all.len());
        let extra = if plan.eintr > 0 { 5 * (all.len() as u64 + 32) } else { 0 };
        let c = with_source(src, &all, plan, |s, _| {
            work("scan", all.len(), 1, extra, || {
                let mut dr = DynR(s.r());
                let mut sc = RawTagScanner::new(&mut dr);
                let mut c = 0u64;
                while let Ok(Some(_)) = sc.next_tag() {
                    c += 1;
                }
                c
            })
        })?;
        ensure!(c == many + 1, "wrong-scan", "{} of {} tags scanned", c, many + 1);
    }
    Ok(())
}

/// Whatever the bytes claim, only those received cost work.
fn attempt(reg: &Reg, f: &dyn ILTagFactory, b: &[u8], depth: usize) -> Res<()> {
    let n = b.len();
    let src = pick_src();
    let mut plan = if chance(1, 2) { Plan::benign(n) } else { Plan::clean() };
    if chance(1, 3) && n > 0 {
        plan.fail = Some(Fail {
            at: choose(n as u64 + 1),
            how: if chance(1, 2) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) },
            sticky: chance(1, 2),
            partial: chance(1, 2),
            id: 5,
        });
    }
    let extra = if plan.eintr > 0 { 5 * (n as u64 + 32) } else { 0 };
    let ok = with_source(src, b, plan, |s, _| match choose(4) {
        0 => match header(b, reg) {
            Some((id, kind)) => {
                let mut t = blank(id, kind);
                work("deserialize_into (hostile)", n, depth, extra, || f.deserialize_into(s.r(), t.as_mut()).is_ok())
            }
            None => work("decode (hostile)", n, depth, extra, || f.deserialize(s.r()).is_ok()),
        },
        1 => work("scan (hostile)", n, 1, extra, || {
            let mut dr = DynR(s.r());
                let mut sc = RawTagScanner::new(&mut dr);
            let mut c = 0;
            while let Ok(Some(_)) = sc.next_tag() {
                c += 1;
                if c > n {
                    return true;
                }
            }
            false
        })
        .and_then(|more| {
            ensure!(!more, "endless-scan", "more tags scanned than there are bytes");
            Ok(true)
        }),
        2 => work("from_bytes (hostile)", n, depth, extra, || f.from_bytes(b).is_ok()),
        _ => work("decode (hostile)", n, depth, extra, || f.deserialize(s.r()).is_ok()),
    })?;
    core::ev(0x51, ok as u64, n as u64);
    Ok(())
}

use super::c04::{damage, header};

fn damaged() -> Res<()> {
    let reg = reg40(chance(1, 4));
    let f = make_factory(&reg);
    let t = shape(&reg);
    let mut e = Enc::default();
    e.tag(&t);
    let mut b = e.out.clone();
    let other = enc(&small());
    let d = t.depth();
    note(&t, b.len());
    for _ in 0..1 + choose(3) {
        damage(&mut b, &e, &other);
    }
    core::nontrivial();
    // damage cannot nest things much deeper than the bytes around them are
    let d = d + 4;
    tr!("{} bytes depth {} damaged {}", b.len(), d, hex(&b[..b.len().min(200)]));
    for _ in 0..1 + choose(3) {
        attempt(&reg, &f, &b, d)?;
    }
    Ok(())
}

/// Counts and sizes without anything behind them.
fn claims() -> Res<()> {
    let reg = reg40(chance(1, 4));
    let f = make_factory(&reg);
    let count = match choose(5) {
        0 => 1000 + choose(100_000),
        1 => choose(1 << 24),
        2 => MAX_TAG - choose(20),
        3 => (1 << 32) + choose(10),
        _ => u64::MAX - choose(10),
    };
    let size = match weighted(&[8, 6, 1]) {
        0 => choose(1 << 20),
        1 => choose(1 << 24),
        _ => MAX_TAG - choose(1000),
    };
    let id = pick(&[16u64, 17, 18, 19, 20, 21, 22, 25, 30, 31, 40, 41, 99, 20, 21, 30, 31]);
    let mut v = Vec::new();
    if matches!(id, 20 | 21 | 25 | 30 | 31 | 41) {
        ilint_put(&mut v, count);
    }
    for _ in 0..choose(4) {
        match id {
            20 | 25 => v.push(choose(248) as u8),
            30 | 41 => v.extend_from_slice(&[17, 1, choose(128) as u8, 0]),
            31 => v.extend_from_slice(&[17, 1, choose(128) as u8, 17, 0]),
            _ => v.extend_from_slice(&[3, 1]),
        }
    }
    core::fault("claims without data");
    let mut b = Vec::new();
    ilint_put(&mut b, id);
    ilint_put(&mut b, size);
    b.extend_from_slice(&v);
    let levels = choose(20);
    for _ in 0..levels {
        let mut o = Vec::new();
        ilint_put(&mut o, 22);
        ilint_put(&mut o, if chance(1, 2) { MAX_TAG } else { size.max(b.len() as u64) });
        o.extend_from_slice(&b);
        b = o;
    }
    tr!("id {} size {} count {} in {} levels: {}", id, size, count, levels, hex(&b));
    sample(|| format!("id {} claims {} bytes, {} elements, {} levels: {}", id, size, count, levels, hex(&b)));
    // buffers for claimed sizes are C11's business: few repetitions of large ones
    attempt(&reg, &f, &b, levels as usize + 2)
}

/// A stream interrupted very many times at one call, then working again: the pending operation
/// completes, with the same result.
fn storm() -> Res<()> {
    let reg = reg40(false);
    let f = make_factory(&reg);
    let t = shape(&reg);
    let bytes = enc(&t);
    let (n, d) = (bytes.len(), t.depth());
    note(&t, n);
    let count = match choose(4) {
        0 => 1 + choose(40),
        1 => 40 + choose(300),
        2 => pick(&[255u64, 256, 257, 999, 1000, 1001, 1023, 1024, 1025]),
        _ => 1000 + choose(4000),
    };
    let mut plan = Plan::benign(n);
    plan.eintr = 0;
    // fragmented streams need that many calls, whole ones few
    let calls = match plan.frag {
        Frag::Full => 8,
        _ => n as u64 + 2,
    };
    plan.eintr_at = Some((1 + choose(calls.min(60)), count));
    tr!("{} bytes depth {}, plan {:?}", n, d, plan);
    if chance(1, 2) {
        let src = pick(&[SrcKind::ReadReader, SrcKind::Seekable, SrcKind::BufSeekable, SrcKind::ReadBuf, SrcKind::User, SrcKind::Limited, SrcKind::Nested]);
        if chance(1, 4) {
            let mut all = bytes.clone();
            all.extend_from_slice(&[3, 1, 0]);
            let c = with_source(src, &all, plan, |s, _| {
                work("scan", all.len(), 1, count, || {
                    let mut dr = DynR(s.r());
                let mut sc = RawTagScanner::new(&mut dr);
                    let mut v = Vec::new();
                    for _ in 0..3 {
                        match sc.next_tag() {
                            Ok(Some(t)) => {
                                let _p = mem::pause();
                                v.push(Some((t.id(), t.offset(), t.size())))
                            }
                            _ => {
                                let _p = mem::pause();
                                v.push(None)
                            }
                        }
                    }
                    v
                })
            })?;
            let want = vec![
                Some((t.id, 0, n as u64)),
                Some((3, n as u64, 2)),
                Some((0, n as u64 + 2, 1)),
            ];
            ensure!(c == want, "stuck-after-interruptions", "scan after {} interruptions: {:?}, expected {:?}", count, c, want);
            return Ok(());
        }
        let r = with_source(src, &bytes, plan, |s, _| work("decode (storm)", n, d, count, || f.deserialize(s.r())))?;
        match r {
            Ok(x) => same(x.as_ref(), &t, &reg, "decode after an interruption storm"),
            Err(e) => core::viol("stuck-after-interruptions", format!("decode after {} interruptions: {:?} from {:?}", count, e, src)),
        }
    } else {
        let real = build_plain(&t);
        let snk = pick(&[SnkKind::WriteWriter, SnkKind::Seekable, SnkKind::BufSeekable, SnkKind::WriteBuf, SnkKind::User, SnkKind::Pair]);
        let (r, got) = with_sink(snk, n, plan, |w: &mut dyn Writer, _| work("serialize (storm)", n, d, count, || real.serialize(w)));
        let r = r?;
        ensure!(
            r.is_ok(),
            "stuck-after-interruptions",
            "serialize after {} interruptions into {:?}: {:?}",
            count,
            snk,
            r.err()
        );
        same_bytes(&got, &bytes, "wrong-bytes", "serialize after an interruption storm")
    }
}
