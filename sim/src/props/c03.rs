//! A truncated or failing source never yields a tag.
use super::*;
use crate::core::{chance, choose, pick, range, sample};
use crate::tr;
use il2_iltags::io as lio;
use il2_iltags::tags::ErrorKind;

pub const RULE: &str = "one evaluation judges one decoding attempt on a source that ends or fails at a drawn byte; a history is non-trivial if a fault happened";

pub fn run() -> Res<()> {
    let reg = gen_reg();
    let mut tags = gen_stream(&reg, 4);
    let bulk = chance(1, 3000);
    if bulk {
        // one large value between small ones
        core::probe("bulky value");
        let n = match choose(3) {
            0 => range(10_000, 1 << 20),
            _ => (1u64 << range(14, 20)) - 20 + choose(60),
        } as usize;
        let (id, kind) = pick(&[(16, Kind::Bytes), (17, Kind::Str), (18, Kind::BigInt), (70_000, Kind::Raw)]);
        if reg.kind(id).unwrap_or(Kind::Raw) == kind && !(reg.strict && kind == Kind::Raw) {
            let val = if kind == Kind::Str { Val::Str("y".repeat(n)) } else { Val::Bytes(gen_bytes(n)) };
            tags.truncate(2);
            tags.insert(choose(tags.len() as u64 + 1) as usize, MTag { id, kind, val });
        }
    }
    let mut e = Enc {
        wide: chance(1, 4),
        ..Default::default()
    };
    let mut ends = Vec::new();
    for t in &tags {
        e.tag(t);
        ends.push(e.out.len());
    }
    let bytes = e.out.clone();
    let mut marks: Vec<usize> = e.fields.iter().map(|f| f.off).chain(e.extents.iter().map(|x| x.end)).collect();
    if bulk {
        // readers that work in parts
        for x in e.extents.iter().filter(|x| x.end - x.value > 8000) {
            for shift in 12..20 {
                marks.push(x.value + ((x.end - x.value) >> shift << shift));
            }
            for _ in 0..4 {
                marks.push(x.end - choose(200) as usize);
            }
        }
    }
    let f = make_factory(&reg);
    let rounds = if bulk { 4 } else { 1 + choose(4) };
    for _ in 0..rounds {
        let at = cut_pos(bytes.len(), &marks) as usize;
        let into = chance(1, 4);
        if chance(1, 2) {
            let src = pick_src();
            sample(|| format!("{} tags, {} bytes cut at {} from {:?}", tags.len(), bytes.len(), at, src));
            let plan = Plan::benign(at);
            tr!("data cut at {}", at);
            core::fault("stream truncated");
            with_source(src, &bytes[..at], plan, |s, _| {
                attempts(s, &f, &reg, &tags, &ends, at, src, None, true, into)
            })?;
        } else {
            let src = pick(&SRC_FAULTY);
            let mut plan = Plan::benign(bytes.len());
            let how = if chance(1, 4) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) };
            let fail = Fail {
                at: at as u64,
                how,
                sticky: chance(1, 2),
                partial: chance(1, 2),
                id: 100 + choose(1000),
            };
            plan.fail = Some(fail);
            sample(|| format!("{} tags, {} bytes failing at {} from {:?}", tags.len(), bytes.len(), at, src));
            with_source(src, &bytes, plan, |s, _| {
                attempts(s, &f, &reg, &tags, &ends, at, src, Some(fail), fail.sticky, into)
            })?;
        }
        // whole-buffer entry point
        if at < bytes.len() {
            let i = ends.iter().position(|e| *e > at).unwrap();
            let start = if i == 0 { 0 } else { ends[i - 1] };
            core::eval(1);
            match f.from_bytes(&bytes[start..at]) {
                Err(e) if is_io(&e) => (),
                Err(e) => return core::viol("wrong-error", format!("from_bytes() of a truncated tag: {:?}", e)),
                Ok(t) => {
                    return core::viol(
                        "tag-from-truncated-data",
                        format!("from_bytes() gave tag {} for {} of {} bytes", t.id(), at - start, ends[i] - start),
                    )
                }
            }
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn attempts(
    s: &mut dyn Src,
    f: &dyn ILTagFactory,
    reg: &Reg,
    tags: &[MTag],
    ends: &[usize],
    at: usize,
    src: SrcKind,
    fail: Option<Fail>,
    sticky: bool,
    into: bool,
) -> Res<()> {
    for (i, m) in tags.iter().enumerate() {
        let complete = ends[i] <= at;
        let mut pre = if into { Some(blank(m.id, m.kind)) } else { None };
        let r: Result<Option<Box<dyn ILTag>>, ErrorKind> = match &mut pre {
            Some(t) => f.deserialize_into(s.r(), t.as_mut()).map(|_| None),
            None => f.deserialize(s.r()).map(Some),
        };
        core::eval(1);
        core::ev(0x33, i as u64, r.is_ok() as u64);
        match r {
            Ok(t) => {
                ensure!(
                    complete,
                    "tag-from-truncated-data",
                    "tag {} ends at {} but the source {:?} ended or failed at {}, and it was decoded nevertheless",
                    i,
                    ends[i],
                    src,
                    at
                );
                let t = match t {
                    Some(t) => t,
                    None => pre.take().unwrap(),
                };
                same(t.as_ref(), m, reg, &format!("tag {} before the failure", i))?;
            }
            Err(e) => {
                ensure!(
                    !complete,
                    "lost-tag",
                    "tag {} lies completely before the failure at {} ({:?}), but decoding it gave {:?}",
                    i,
                    at,
                    src,
                    e
                );
                ensure!(is_io(&e), "wrong-error", "a failing source was reported as {:?}", e);
                identity(&e, src, fail)?;
                // more attempts from the same place cannot succeed either
                if sticky && s.pos() == Some(at as u64) {
                    for _ in 0..2 {
                        core::eval(1);
                        match f.deserialize(s.r()) {
                            Err(e) if is_io(&e) => identity(&e, src, fail)?,
                            Err(e) => return core::viol("wrong-error", format!("repeated attempt: {:?}", e)),
                            Ok(t) => return core::viol("tag-from-truncated-data", format!("repeated attempt gave tag {}", t.id())),
                        }
                    }
                }
                return Ok(());
            }
        }
    }
    Ok(())
}

/// The plain stream reader hands back the source's own error.
fn identity(e: &ErrorKind, src: SrcKind, fail: Option<Fail>) -> Res<()> {
    let plain = matches!(src, SrcKind::ReadReader | SrcKind::User | SrcKind::UserAtomic | SrcKind::Limited);
    let io = match e {
        ErrorKind::IOError(e) => e,
        _ => return Ok(()),
    };
    match fail {
        Some(Fail {
            how: FailHow::Err(k),
            id,
            ..
        }) if plain => {
            ensure!(
                lio_err_id(io) == Some(id),
                "error-replaced",
                "{:?} reported error {} ({:?}), the caller got {:?}",
                src,
                id,
                k,
                e
            );
            if let lio::ErrorKind::IOError(x) = io {
                ensure!(x.kind() == k, "error-replaced", "kind {:?} became {:?}", k, x.kind());
            }
        }
        Some(Fail { how: FailHow::Zero, .. }) | None if src == SrcKind::ReadReader => match io {
            lio::ErrorKind::IOError(x) if x.kind() == std::io::ErrorKind::UnexpectedEof => (),
            lio::ErrorKind::EndOfData => (),
            _ => return core::viol("error-replaced", format!("end of data was reported as {:?}", e)),
        },
        _ => (),
    }
    Ok(())
}
