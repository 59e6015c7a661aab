//! Serialization success means every byte reached the sink; failure is clean.
use super::*;
use crate::core::{chance, choose, pick, sample};
use crate::tr;
use il2_iltags::io as lio;
use il2_iltags::io::array::{BorrowedVecWriter, ByteArrayWriter, VecWriter};
use il2_iltags::io::{WriteWriter, Writer};
use il2_iltags::tags::ErrorKind;

pub const RULE: &str = "one evaluation judges the outcome of serializing one tag to a sink that fails, fills up or refuses at a drawn byte; a history is non-trivial if a fault happened";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    /// WriteWriter over a failing stream
    Plain,
    /// failing Write + Seek used directly
    Seekable,
    /// user-written Writer
    User,
    /// fixed array
    Array,
    /// fixed slice behind Cursor (Write + Seek)
    CursorSlice,
    /// fixed slice behind WriteWriter
    WriteSlice,
    /// vector writer switched to read-only
    ReadOnly,
}
const BADS: [Bad; 7] = [
    Bad::Plain,
    Bad::Seekable,
    Bad::User,
    Bad::Array,
    Bad::CursorSlice,
    Bad::WriteSlice,
    Bad::ReadOnly,
];

struct Attempt {
    results: Vec<Result<(), ErrorKind>>,
}

fn attempt(w: &mut dyn Writer, reals: &[Box<dyn ILTag>]) -> Attempt {
    let mut results = Vec::new();
    for t in reals {
        let r = t.serialize(w);
        let stop = r.is_err();
        results.push(r);
        if stop {
            break;
        }
    }
    Attempt { results }
}

pub fn run() -> Res<()> {
    let reg = gen_reg();
    let mut tags = gen_stream(&reg, 3);
    if chance(1, 4) {
        // dictionaries write through a path of their own
        let mut g = Gen::new(&reg, 200, 2);
        let (id, k) = pick(&[(30, Kind::Dict), (31, Kind::StrDict), (21, Kind::TagArr), (20, Kind::IntArr), (25, Kind::Oid)]);
        if reg.kind(id) == Some(k) {
            let t = g.of(id, k, 2);
            tags.push(t);
        }
    }
    let mut e = Enc::default();
    for t in &tags {
        e.tag(t);
    }
    let bytes = e.out.clone();
    let marks: Vec<usize> = e.fields.iter().map(|f| f.off).chain(e.extents.iter().map(|x| x.end)).collect();
    let ends = ends(&tags);
    let reals: Vec<_> = tags.iter().map(build).collect();
    let bad = pick(&BADS);
    let at = cut_pos(bytes.len(), &marks) as usize;
    sample(|| format!("{} tags, {} bytes, sink {:?} that fails at byte {}", tags.len(), bytes.len(), bad, at));
    tr!("tags: {}", tags.iter().map(|t| t.short()).collect::<Vec<_>>().join("; "));
    tr!("sink {:?} fails at byte {} of {}", bad, at, bytes.len());

    let mut plan = Plan::benign(bytes.len());
    let how = match choose(4) {
        0 => FailHow::Zero,
        1 => FailHow::Err(std::io::ErrorKind::Other),
        _ => FailHow::Err(pick(&HARD_KINDS)),
    };
    let id = 100 + choose(1000);
    plan.fail = Some(Fail {
        at: at as u64,
        how,
        sticky: chance(2, 3),
        partial: chance(1, 2),
        id,
    });
    let partial = plan.fail.unwrap().partial;

    let (a, held, st) = match bad {
        Bad::Plain => {
            let st = stream(Vec::new(), plan);
            let mut s = WStream(st.clone());
            let a = attempt(&mut WriteWriter::new(&mut s), &reals);
            let d = st.borrow().data.clone();
            (a, d, Some(st))
        }
        Bad::Seekable => {
            let st = stream(Vec::new(), plan);
            let mut s = WSStream(st.clone());
            let a = attempt(&mut s, &reals);
            let d = st.borrow().data.clone();
            (a, d, Some(st))
        }
        Bad::User => {
            let st = stream(Vec::new(), plan);
            let mut s = SimWriter(st.clone());
            let a = attempt(&mut s, &reals);
            let d = st.borrow().data.clone();
            (a, d, Some(st))
        }
        Bad::Array => {
            let mut v = vec![0xEE; at + 16];
            let (a, n) = {
                let mut w = ByteArrayWriter::new(&mut v[..at]);
                let a = attempt(&mut w, &reals);
                (a, w.get_offset())
            };
            if at < bytes.len() {
                core::fault("array full");
            }
            ensure!(
                n <= at && v[n..].iter().all(|b| *b == 0xEE),
                "writer-clobbered",
                "ByteArrayWriter changed bytes beyond its offset {}",
                n
            );
            v.truncate(n);
            (a, v, None)
        }
        Bad::CursorSlice => {
            let mut v = vec![0xEE; at];
            let (a, n) = {
                let mut c = std::io::Cursor::new(&mut v[..]);
                let a = attempt(&mut c, &reals);
                (a, c.position() as usize)
            };
            if at < bytes.len() {
                core::fault("slice full");
            }
            v.truncate(n);
            (a, v, None)
        }
        Bad::WriteSlice => {
            let mut v = vec![0xEE; at];
            let (a, left) = {
                let mut s: &mut [u8] = &mut v;
                let a = {
                    let mut w = WriteWriter::new(&mut s);
                    attempt(&mut w, &reals)
                };
                (a, s.len())
            };
            if at < bytes.len() {
                core::fault("slice full");
            }
            v.truncate(at - left);
            (a, v, None)
        }
        Bad::ReadOnly => return read_only(&reals, &tags, &bytes, &ends),
    };

    judge(&a, &tags, &ends, &bytes, &held, at, bad)?;
    if let Some(st) = &st {
        let s = st.borrow();
        ensure!(
            s.after_fail == 0,
            "wrote-after-failure",
            "{} calls reached the sink after it had failed",
            s.after_fail
        );
        if s.fired.is_some() {
            if bad == Bad::Plain {
                if let FailHow::Err(k) = how {
                    match a.results.last() {
                        Some(Err(ErrorKind::IOError(lio::ErrorKind::IOError(x)))) if err_id(x) == Some(id) && x.kind() == k => (),
                        other => {
                            return core::viol(
                                "error-replaced",
                                format!("the sink reported {:?} (error {}), the caller got {:?}", k, id, other),
                            )
                        }
                    }
                }
            }
            if !partial {
                // the failing call moved nothing
                ensure!(
                    held.len() <= at,
                    "wrong-prefix",
                    "{} bytes accepted although the sink failed at {}",
                    held.len(),
                    at
                );
            }
        }
    }
    recover(&reals, &tags, &bytes)
}

fn judge(a: &Attempt, tags: &[MTag], ends: &[usize], bytes: &[u8], held: &[u8], at: usize, bad: Bad) -> Res<()> {
    for (i, r) in a.results.iter().enumerate() {
        core::eval(1);
        let fits = ends[i] <= at;
        match r {
            Ok(()) => ensure!(
                fits,
                "false-success",
                "serialize() of tag {} reported success, but its bytes end at {} and the sink {:?} failed at {}",
                i,
                ends[i],
                bad,
                at
            ),
            Err(e) => {
                ensure!(
                    !fits,
                    "false-failure",
                    "serialize() of tag {} reported {:?}, but the sink accepts all of its bytes",
                    i,
                    e
                );
                ensure!(
                    is_io(e),
                    "wrong-error",
                    "a failing sink was reported as {:?} instead of an I/O error",
                    e
                );
            }
        }
        core::ev(0x32, i as u64, r.is_ok() as u64);
    }
    ensure!(
        held.len() <= bytes.len() && held == &bytes[..held.len()],
        "wrong-prefix",
        "the sink does not hold a prefix of the encoding: {}",
        first_diff(held, bytes)
    );
    let done = a.results.iter().take_while(|r| r.is_ok()).count();
    let min = if done == 0 { 0 } else { ends[done - 1] };
    ensure!(
        held.len() >= min,
        "false-success",
        "{} tags reported as written, but only {} of {} bytes arrived",
        done,
        held.len(),
        min
    );
    if done == tags.len() {
        same_bytes(held, bytes, "wrong-prefix", "sink content after success")?;
    }
    Ok(())
}

/// The tags are unaffected by the failure.
fn recover(reals: &[Box<dyn ILTag>], tags: &[MTag], bytes: &[u8]) -> Res<()> {
    let kind = pick(&SNK_ALL);
    let (r, got) = with_sink(kind, bytes.len(), Plan::benign(bytes.len()), |w, _| {
        super::c01::write_all_tags(w, reals, tags)
    });
    r?;
    same_bytes(&got, bytes, "residue", &format!("serializing again to a healthy {:?}", kind))
}

fn read_only(reals: &[Box<dyn ILTag>], tags: &[MTag], bytes: &[u8], ends: &[usize]) -> Res<()> {
    let k = choose(reals.len() as u64) as usize;
    let mut own = VecWriter::new();
    let mut v: Vec<u8> = Vec::new();
    let borrowed = chance(1, 2);
    let (first, second, during): (Attempt, Attempt, Vec<u8>);
    if borrowed {
        let mut w = BorrowedVecWriter::new(&mut v);
        first = attempt(&mut w, &reals[..k]);
        w.set_read_only(true);
        core::fault("writer switched to read-only");
        second = attempt(&mut w, &reals[k..]);
        during = w.as_slice().to_vec();
        w.set_read_only(false);
        let third = attempt(&mut w, &reals[k..]);
        ensure!(
            third.results.len() == reals.len() - k && third.results.iter().all(|r| r.is_ok()),
            "false-failure",
            "writing after the read-only period failed: {:?}",
            third.results
        );
    } else {
        let w = &mut own;
        first = attempt(w, &reals[..k]);
        w.set_read_only(true);
        core::fault("writer switched to read-only");
        second = attempt(w, &reals[k..]);
        during = w.as_slice().to_vec();
        w.set_read_only(false);
        let third = attempt(w, &reals[k..]);
        ensure!(
            third.results.len() == reals.len() - k && third.results.iter().all(|r| r.is_ok()),
            "false-failure",
            "writing after the read-only period failed: {:?}",
            third.results
        );
        v = own.into();
    }
    ensure!(
        first.results.len() == k && first.results.iter().all(|r| r.is_ok()),
        "false-failure",
        "writing before the read-only period failed: {:?}",
        first.results
    );
    core::eval(1);
    match &second.results[0] {
        Err(e) if is_io(e) => (),
        other => return core::viol("false-success", format!("a read-only writer gave {:?}", other)),
    }
    let done = if k == 0 { 0 } else { ends[k - 1] };
    same_bytes(&during, &bytes[..done], "wrong-prefix", "content after the refused write")?;
    same_bytes(&v, bytes, "residue", "content after writing was allowed again")?;
    recover(reals, tags, bytes)
}
