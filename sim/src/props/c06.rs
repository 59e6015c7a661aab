//! Every reader behaves like one in-order cursor over its data.
use super::typed::{self, RT};
use super::*;
use crate::core::{chance, choose, pick, sample};
use crate::tr;
use il2_iltags::ilint;
use il2_iltags::io as lio;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader, VecReader};
use il2_iltags::io::{LimitedReader, Reader};

pub const RULE: &str = "one evaluation compares the outcome of one operation (data, acceptance, position) with a cursor over the same data; a history is non-trivial if a fault or a refused operation happened";

/// What is known about the position after an operation failed.
#[derive(Clone, Copy, PartialEq, Debug)]
enum OnFail {
    /// nothing moved
    Stay,
    /// the position can be observed
    Observe,
    /// the rest of the history cannot be predicted
    Stop,
}

struct Hist<'a> {
    data: &'a [u8],
    kind: SrcKind,
    /// position in `data`; may lie beyond its end on seekable streams
    pos: u64,
    fail: OnFail,
    /// skips are refused as a whole
    atomic_skip: bool,
    faulty: bool,
    st: Option<St>,
}

trait Ops {
    fn r(&mut self) -> &mut dyn Reader;
    fn mem(&mut self) -> Option<&mut dyn MemoryReader> {
        None
    }
    fn lim(&mut self) -> Option<usize> {
        None
    }
    fn pos(&mut self) -> Option<u64>;
    fn seek(&mut self, _to: u64) -> bool {
        false
    }
    fn slice(&self) -> Option<&[u8]> {
        None
    }
    fn can_read(&self, _n: usize) -> Option<bool> {
        None
    }
}

impl<'a> Ops for ByteArrayReader<'a> {
    fn r(&mut self) -> &mut dyn Reader {
        self
    }
    fn mem(&mut self) -> Option<&mut dyn MemoryReader> {
        Some(self)
    }
    fn pos(&mut self) -> Option<u64> {
        Some(MemoryReader::offset(self) as u64)
    }
    fn slice(&self) -> Option<&[u8]> {
        Some(self.as_slice())
    }
    fn can_read(&self, n: usize) -> Option<bool> {
        Some(ByteArrayReader::can_read(self, n).is_ok())
    }
}
impl Ops for VecReader {
    fn r(&mut self) -> &mut dyn Reader {
        self
    }
    fn mem(&mut self) -> Option<&mut dyn MemoryReader> {
        Some(self)
    }
    fn pos(&mut self) -> Option<u64> {
        Some(MemoryReader::offset(self) as u64)
    }
    fn slice(&self) -> Option<&[u8]> {
        assert_eq!(self.as_slice().as_ptr(), self.vec().as_ptr());
        Some(self.as_slice())
    }
    fn can_read(&self, n: usize) -> Option<bool> {
        Some(VecReader::can_read(self, n).is_ok())
    }
}
struct CurR(std::io::Cursor<Vec<u8>>);
impl Ops for CurR {
    fn r(&mut self) -> &mut dyn Reader {
        &mut self.0
    }
    fn pos(&mut self) -> Option<u64> {
        Some(self.0.position())
    }
    fn seek(&mut self, to: u64) -> bool {
        self.0.set_position(to);
        true
    }
}
struct SeekR(RSStream, St);
impl Ops for SeekR {
    fn r(&mut self) -> &mut dyn Reader {
        &mut self.0
    }
    fn pos(&mut self) -> Option<u64> {
        Some(self.1.borrow().pos)
    }
    fn seek(&mut self, to: u64) -> bool {
        self.1.borrow_mut().pos = to;
        true
    }
}
struct LimR<'a>(LimitedReader<'a>, usize);
impl<'a> Ops for LimR<'a> {
    fn r(&mut self) -> &mut dyn Reader {
        &mut self.0
    }
    fn lim(&mut self) -> Option<usize> {
        Some(self.0.available())
    }
    fn pos(&mut self) -> Option<u64> {
        Some((self.1 - self.0.available()) as u64)
    }
}
struct SrcR<'a>(&'a mut dyn Src);
impl<'a> Ops for SrcR<'a> {
    fn r(&mut self) -> &mut dyn Reader {
        self.0.r()
    }
    fn pos(&mut self) -> Option<u64> {
        self.0.pos()
    }
}

/// A size at which buffers are commonly split, or near one.
fn notable(max: usize) -> usize {
    let n = if chance(3, 4) { pick(&LEN_POOL) } else { pick(&BIG_LEN_POOL) };
    n.min(max)
}

fn content() -> Vec<u8> {
    let mut v = Vec::new();
    if chance(1, 60) {
        // a long text, or long data, of a notable size
        let n = notable(140_000);
        v = if chance(1, 2) { gen_string(n).into_bytes() } else { gen_bytes(n) };
        if chance(1, 3) {
            v.extend(gen_bytes(choose(20) as usize));
        }
        return v;
    }
    let n = choose(6);
    for _ in 0..n {
        match choose(6) {
            0 => {
                let k = choose(40) as usize;
                v.extend(gen_bytes(k))
            }
            1 => ilint_put(&mut v, gen_u64()),
            2 => v.extend(gen_string(choose(30) as usize).into_bytes()),
            3 => {
                let k = 500 + choose(600) as usize;
                v.extend(gen_bytes(k))
            }
            4 => v.extend_from_slice(&[0xFF; 9]),
            _ => {
                let x = gen_u64().max(248);
                let k = core::range(ilint_len(x) as u64, 9) as usize;
                ilint_put_len(&mut v, x, k);
            }
        }
    }
    v
}

pub fn run() -> Res<()> {
    let data = content();
    let kind = pick_src();
    sample(|| format!("{} bytes behind {:?}", data.len(), kind));
    let base = Hist {
        data: &data,
        kind,
        pos: 0,
        fail: OnFail::Stay,
        atomic_skip: true,
        faulty: false,
        st: None,
    };
    pure_int(&data)?;
    match kind {
        SrcKind::Array => {
            core::ev(0x20, 0, data.len() as u64);
            tr!("ByteArrayReader over {}", hex(&data));
            history(base, &mut ByteArrayReader::new(&data))
        }
        SrcKind::Vec => {
            core::ev(0x20, 1, data.len() as u64);
            tr!("VecReader over {}", hex(&data));
            history(base, &mut VecReader::new(&data))
        }
        SrcKind::Cursor => {
            core::ev(0x20, 2, data.len() as u64);
            tr!("Cursor over {}", hex(&data));
            history(
                Hist {
                    fail: OnFail::Observe,
                    ..base
                },
                &mut CurR(std::io::Cursor::new(data.clone())),
            )
        }
        SrcKind::Seekable => {
            let (plan, faulty) = faulty_plan(data.len());
            tr!("Read + Seek over {} plan {:?}", hex(&data), plan);
            let st = stream(data.clone(), plan);
            history(
                Hist {
                    fail: OnFail::Observe,
                    faulty,
                    st: Some(st.clone()),
                    ..base
                },
                &mut SeekR(RSStream(st.clone()), st),
            )
        }
        SrcKind::Limited | SrcKind::Nested => {
            // the limit may lie before or behind the end of what the source has
            let st = stream(data.clone(), Plan::benign(data.len()));
            let lim = match choose(3) {
                0 => data.len(),
                1 => choose(data.len() as u64 + 1) as usize,
                _ => data.len() + choose(5) as usize,
            };
            tr!("LimitedReader({}) over {}", lim, hex(&data));
            core::ev(0x20, 3, lim as u64);
            let h = Hist {
                data: &data[..lim.min(data.len())],
                // beyond the source's own end the outcome is the source's business
                fail: if lim > data.len() { OnFail::Stop } else { OnFail::Stay },
                atomic_skip: lim <= data.len(),
                ..base
            };
            let mut s = SimReader(st.clone());
            let mut rs = RSStream(st.clone());
            let mut arr = ByteArrayReader::new(&data);
            let inner: &mut dyn Reader = match choose(3) {
                0 => &mut s,
                1 => &mut rs,
                _ => &mut arr,
            };
            if kind == SrcKind::Limited {
                history(h, &mut LimR(LimitedReader::new(inner, lim), lim))
            } else {
                let mut l1 = LimitedReader::new(inner, lim + choose(3) as usize);
                history(h, &mut LimR(LimitedReader::new(&mut l1, lim), lim))
            }
        }
        _ => {
            let (plan, faulty) = if matches!(kind, SrcKind::ReadReader | SrcKind::User) {
                faulty_plan(data.len())
            } else {
                (Plan::benign(data.len()), false)
            };
            let fail = match kind {
                SrcKind::ReadReader | SrcKind::User => OnFail::Observe,
                SrcKind::CursorSlice | SrcKind::BufSeekable => OnFail::Observe,
                _ => OnFail::Stop,
            };
            let atomic_skip = matches!(kind, SrcKind::CursorSlice | SrcKind::BufSeekable);
            with_source(kind, &data, plan, |s, st| {
                history(
                    Hist {
                        fail,
                        atomic_skip,
                        faulty,
                        st: if faulty { st.cloned() } else { None },
                        ..base
                    },
                    &mut SrcR(s),
                )
            })
        }
    }
}

fn faulty_plan(len: usize) -> (Plan, bool) {
    let mut plan = Plan::benign(len);
    if chance(1, 2) {
        return (plan, false);
    }
    plan.fail = Some(Fail {
        at: cut_pos(len, &[]),
        how: if chance(1, 4) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) },
        sticky: chance(1, 3),
        partial: chance(1, 2),
        id: 300,
    });
    (plan, true)
}

/// Integer decoding straight from memory.
fn pure_int(data: &[u8]) -> Res<()> {
    let at = choose(data.len() as u64 + 1) as usize;
    let d = &data[at..];
    let want = typed::expect(&RT::ILInt, d);
    core::eval(1);
    match (ilint::decode_from_bytes(d), &want) {
        (Ok((v, n)), Ok((b, k))) if v.to_be_bytes()[..] == b[..] && n == *k => (),
        (Err(_), Err(_)) => (),
        (g, w) => {
            return core::viol(
                "wrong-value",
                format!("decode_from_bytes({}) gave {:?} instead of {:?}", hex(d), g, w),
            )
        }
    }
    Ok(())
}

fn huge() -> u64 {
    pick(&[
        u64::MAX,
        u64::MAX - 1,
        1 << 63,
        (1 << 63) - 1,
        i64::MAX as u64 + 2,
        1 << 32,
        u32::MAX as u64,
        u64::MAX - 7,
    ])
}

/// A count relative to what is left.
fn count(avail: u64) -> u64 {
    match choose(9) {
        8 if avail > 200 => notable(avail as usize + 1) as u64,
        0 => avail,
        1 => avail + 1,
        2 => avail.saturating_sub(1),
        3 => 0,
        4 => choose(600),
        5 => choose(avail + 4),
        6 => choose(10),
        _ => choose(4),
    }
}

fn history(mut h: Hist, o: &mut dyn Ops) -> Res<()> {
    let n_ops = 1 + choose(24);
    let len = h.data.len() as u64;
    for _ in 0..n_ops {
        let avail = len.saturating_sub(h.pos);
        let before = h.pos;
        // (requested, taken on success, what the data must be, operation name, result)
        let rest: &[u8] = if before >= len { &[] } else { &h.data[before as usize..] };
        let atomic;
        let want: Option<usize>; // Some(n): must succeed taking n bytes
        let max: u64; // most that could be taken
        let name: String;
        let got: Result<Option<Vec<u8>>, String>;
        let exp: Option<Vec<u8>>;
        match choose(9) {
            0 => {
                name = "read()".into();
                atomic = true;
                max = 1;
                want = if avail >= 1 { Some(1) } else { None };
                exp = rest.first().map(|b| vec![*b]);
                got = o.r().read().map(|b| Some(vec![b])).map_err(|e| format!("{:?}", e));
            }
            1 | 2 => {
                let n = count(avail).min(150_000) as usize;
                name = format!("read_all({})", n);
                atomic = true;
                max = n as u64;
                want = if n as u64 <= avail { Some(n) } else { None };
                exp = want.map(|n| rest[..n].to_vec());
                let mut b = vec![0xCCu8; n];
                got = match o.r().read_all(&mut b) {
                    Ok(()) => Ok(Some(b)),
                    Err(e) => Err(format!("{:?}", e)),
                };
            }
            3 | 4 => {
                let far = !h.faulty && chance(1, 5);
                let n = if far { huge() } else { count(avail) };
                atomic = h.atomic_skip;
                max = n;
                want = if n <= avail { Some(n as usize) } else { None };
                exp = None;
                if chance(1, 2) {
                    name = format!("skip({})", n);
                    got = o.r().skip(n as usize).map(|_| None).map_err(|e| format!("{:?}", e));
                } else {
                    name = format!("skip_u64({})", n);
                    got = o.r().skip_u64(n).map(|_| None).map_err(|e| format!("{:?}", e));
                }
                if far {
                    core::probe("skip count near the integer limits");
                }
            }
            5 | 6 | 7 => {
                let op = match typed::draw_read(if avail > 64 && chance(1, 3) { avail as usize + 2 } else { 24 }) {
                    typed::RT::Str(_) if avail > 1000 && before == 0 && chance(1, 2) => typed::RT::Str(avail as usize),
                    op => op,
                };
                let fl = choose(typed::FLAVOURS);
                name = format!("typed {:?} flavour {}", op, fl);
                let e = typed::expect(&op, rest);
                max = typed::span(&op) as u64;
                atomic = typed::single(&op) && e != Err(true);
                want = e.as_ref().ok().map(|x| x.1);
                exp = e.ok().map(|x| x.0);
                got = typed::read(o.r(), &op, fl).map(Some);
            }
            _ => {
                // repositioning and queries
                if let Some(m) = o.mem() {
                    let to = match choose(4) {
                        0 => choose(len + 1),
                        1 => len,
                        2 => len + choose(4),
                        _ => huge(),
                    };
                    m.set_offset(to as usize);
                    h.pos = to.min(len);
                    tr!("set_offset({})", to);
                } else {
                    let to = match choose(5) {
                        0 | 1 => choose(len + 1),
                        2 => len,
                        3 => len + choose(20),
                        _ => pick(&[u64::MAX >> 1, u64::MAX - 3, 1 << 63, u64::MAX]),
                    };
                    // positions beyond the end only where the stream allows them
                    if o.seek(to) {
                        h.pos = to;
                        tr!("seek to {}", to);
                        core::ev(0x41, to, 0);
                        if to > len {
                            core::probe("positioned beyond the end");
                        }
                    }
                }
                queries(&mut h, o)?;
                continue;
            }
        }
        core::eval(1);
        tr!("at {}: {} -> {:?}", before, name, got.as_ref().map(|b| b.as_ref().map(|b| hex(b))));
        core::ev(0x42, before, got.is_ok() as u64);
        let fired = h.st.as_ref().map(|s| s.borrow_mut().fired.take().is_some()).unwrap_or(false);
        match (&got, want) {
            (Ok(b), Some(n)) => {
                ensure!(
                    !fired,
                    "fault-hidden",
                    "{:?}: {} succeeded although its source failed meanwhile",
                    h.kind,
                    name
                );
                if let (Some(b), Some(e)) = (b, &exp) {
                    ensure!(
                        b == e,
                        "wrong-value",
                        "{:?} at {}: {} gave {} instead of {}",
                        h.kind,
                        before,
                        name,
                        hex(b),
                        hex(e)
                    );
                }
                h.pos = before + n as u64;
            }
            (Ok(b), None) => {
                return core::viol(
                    "invented-data",
                    format!(
                        "{:?} at {} of {}: {} succeeded with {:?}",
                        h.kind,
                        before,
                        len,
                        name,
                        b.as_ref().map(|b| hex(b))
                    ),
                )
            }
            (Err(e), Some(_)) if !fired => {
                return core::viol(
                    "refused",
                    format!("{:?} at {} of {}: {} failed with {}", h.kind, before, len, name, e),
                )
            }
            (Err(_), _) => {
                core::nontrivial();
                core::probe("operation refused or failed");
                let now = o.pos();
                let mem = o.mem().is_some();
                if (mem && atomic) || (!mem && !fired && atomic && (h.fail == OnFail::Stay || name.starts_with("skip"))) {
                    if let Some(p) = now {
                        ensure!(
                            p == before,
                            "moved-by-failure",
                            "{:?} at {} of {}: {} failed and left the position at {}",
                            h.kind,
                            before,
                            len,
                            name,
                            p
                        );
                    }
                } else if h.fail == OnFail::Stop {
                    return Ok(());
                } else {
                    match now {
                        Some(p) => {
                            ensure!(
                                (p >= before && p <= before.saturating_add(max).min(len.max(before)))
                                    || (p == len && matches!(h.kind, SrcKind::Cursor | SrcKind::CursorSlice)),
                                "moved-by-failure",
                                "{:?} at {} of {}: {} failed and left the position at {}",
                                h.kind,
                                before,
                                len,
                                name,
                                p
                            );
                            h.pos = p;
                        }
                        None => return Ok(()),
                    }
                }
            }
        }
        if let Some(p) = o.pos() {
            ensure!(
                p == h.pos,
                "wrong-position",
                "{:?}: position {} instead of {} after {} at {}",
                h.kind,
                p,
                h.pos,
                name,
                before
            );
        }
        queries(&mut h, o)?;
    }
    Ok(())
}

fn queries(h: &mut Hist, o: &mut dyn Ops) -> Res<()> {
    let len = h.data.len();
    if o.mem().is_none() {
        return Ok(());
    }
    let n = match choose(4) {
        0 => huge() as usize,
        _ => count(len as u64 - h.pos) as usize,
    };
    let avail = len - h.pos as usize;
    let can = o.can_read(n);
    let same = o.slice().map(|s| s == h.data);
    let m = match o.mem() {
        Some(m) => m,
        None => return Ok(()),
    };
    core::eval(1);
    ensure!(
        m.len() == len && m.is_empty() == (len == 0) && m.offset() as u64 == h.pos && m.available() == avail,
        "wrong-position",
        "{:?}: len {} offset {} available {} instead of {} {} {}",
        h.kind,
        m.len(),
        m.offset(),
        m.available(),
        len,
        h.pos,
        avail
    );
    let ok = n <= avail;
    let a = m.assert_can_read(n);
    ensure!(
        a.is_ok() == ok && can != Some(!ok),
        "wrong-answer",
        "{:?}: assert_can_read({}) with {} available: {:?}",
        h.kind,
        n,
        avail,
        a
    );
    if let (0, Err(e)) = (avail, &a) {
        ensure!(matches!(e, lio::ErrorKind::EndOfData), "wrong-answer", "at the end: {:?}", e);
    }
    ensure!(same != Some(false), "wrong-value", "the reader's data changed");
    Ok(())
}
