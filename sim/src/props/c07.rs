//! Every writer behaves like one in-order cursor over its buffer.
use super::typed;
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::tr;
use il2_iltags::io::array::{BorrowedVecWriter, ByteArrayWriter, VecWriter};
use il2_iltags::io::{WriteWriter, Writer};

pub const RULE: &str = "one evaluation compares content, position and outcome after one operation with a cursor over a plain buffer; a history is non-trivial if a fault or a refused operation happened";

trait Ops {
    fn w(&mut self) -> &mut dyn Writer;
    fn content(&self) -> Vec<u8>;
    fn offset(&self) -> Option<usize>;
    fn set_offset(&mut self, _n: usize) -> bool {
        false
    }
    fn set_ro(&mut self, _b: bool) -> bool {
        false
    }
    /// further queries, compared with the model
    fn check(&self, _m: &Model) -> Res<()> {
        Ok(())
    }
}

struct Model {
    buf: Vec<u8>,
    pos: usize,
    ro: bool,
    cap: Option<usize>,
    initial: usize,
    /// positions beyond the end are possible (zero fill)
    sparse: bool,
}

macro_rules! vec_ops {
    ($ty:ty) => {
        fn w(&mut self) -> &mut dyn Writer {
            self
        }
        fn content(&self) -> Vec<u8> {
            self.as_slice().to_vec()
        }
        fn offset(&self) -> Option<usize> {
            Some(self.get_offset())
        }
        fn set_offset(&mut self, n: usize) -> bool {
            <$ty>::set_offset(self, n);
            true
        }
        fn set_ro(&mut self, b: bool) -> bool {
            self.set_read_only(b);
            true
        }
    };
}

impl Ops for VecWriter {
    vec_ops!(VecWriter);
    fn check(&self, m: &Model) -> Res<()> {
        ensure!(
            self.is_read_only() == m.ro && self.can_write().is_err() == m.ro && self.vec()[..] == m.buf[..],
            "wrong-answer",
            "read-only {} can_write {:?}, model read-only {}",
            self.is_read_only(),
            self.can_write(),
            m.ro
        );
        Ok(())
    }
}
impl<'a> Ops for BorrowedVecWriter<'a> {
    vec_ops!(BorrowedVecWriter);
    fn check(&self, m: &Model) -> Res<()> {
        ensure!(
            self.is_read_only() == m.ro && self.can_write().is_err() == m.ro && self.vec()[..] == m.buf[..],
            "wrong-answer",
            "read-only {} can_write {:?}, model read-only {}",
            self.is_read_only(),
            self.can_write(),
            m.ro
        );
        let b = self.bytes_written();
        ensure!(
            if m.pos < m.initial { b <= m.buf.len() } else { b == m.pos - m.initial },
            "wrong-answer",
            "bytes_written() is {} at offset {} (started at {})",
            b,
            m.pos,
            m.initial
        );
        Ok(())
    }
}
/// A raw pointer gives the oracle a view of the array behind the writer.
struct ArrW<'a>(ByteArrayWriter<'a>, *const u8, usize);
impl<'a> Ops for ArrW<'a> {
    fn w(&mut self) -> &mut dyn Writer {
        &mut self.0
    }
    fn content(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.1, self.2).to_vec() }
    }
    fn offset(&self) -> Option<usize> {
        Some(self.0.get_offset())
    }
    fn set_offset(&mut self, n: usize) -> bool {
        self.0.set_offset(n);
        true
    }
    fn check(&self, m: &Model) -> Res<()> {
        ensure!(
            self.0.available() == self.2 - m.pos,
            "wrong-answer",
            "available() is {} at {} of {}",
            self.0.available(),
            m.pos,
            self.2
        );
        Ok(())
    }
}
struct CurW(std::io::Cursor<Vec<u8>>);
impl Ops for CurW {
    fn w(&mut self) -> &mut dyn Writer {
        &mut self.0
    }
    fn content(&self) -> Vec<u8> {
        self.0.get_ref().clone()
    }
    fn offset(&self) -> Option<usize> {
        Some(self.0.position() as usize)
    }
    fn set_offset(&mut self, n: usize) -> bool {
        self.0.set_position(n as u64);
        true
    }
}
struct SeekW(WSStream, St);
impl Ops for SeekW {
    fn w(&mut self) -> &mut dyn Writer {
        &mut self.0
    }
    fn content(&self) -> Vec<u8> {
        self.1.borrow().data.clone()
    }
    fn offset(&self) -> Option<usize> {
        Some(self.1.borrow().pos as usize)
    }
    fn set_offset(&mut self, n: usize) -> bool {
        self.1.borrow_mut().pos = n as u64;
        true
    }
}
struct PlainW<'a>(WriteWriter<'a>, St);
impl<'a> Ops for PlainW<'a> {
    fn w(&mut self) -> &mut dyn Writer {
        &mut self.0
    }
    fn content(&self) -> Vec<u8> {
        self.1.borrow().data.clone()
    }
    fn offset(&self) -> Option<usize> {
        Some(self.1.borrow().pos as usize)
    }
}
struct UserW(SimWriter, St);
impl Ops for UserW {
    fn w(&mut self) -> &mut dyn Writer {
        &mut self.0
    }
    fn content(&self) -> Vec<u8> {
        self.1.borrow().data.clone()
    }
    fn offset(&self) -> Option<usize> {
        Some(self.1.borrow().pos as usize)
    }
}

fn faulty_plan() -> Plan {
    let mut plan = Plan::benign(2000);
    if chance(1, 2) {
        plan.fail = Some(Fail {
            at: choose(1500),
            how: if chance(1, 4) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) },
            sticky: chance(1, 3),
            partial: chance(1, 2),
            id: 310,
        });
    }
    plan
}

pub fn run() -> Res<()> {
    let kind = choose(8);
    core::ev(0x50, kind, 0);
    sample(|| format!("writer kind {}", kind));
    let m = Model {
        buf: Vec::new(),
        pos: 0,
        ro: false,
        cap: None,
        initial: 0,
        sparse: false,
    };
    match kind {
        0 => {
            tr!("VecWriter");
            let mut w = match choose(3) {
                0 => VecWriter::new(),
                1 => VecWriter::default(),
                _ => VecWriter::with_capacity(choose(64) as usize),
            };
            let end = history(m, &mut w, None)?;
            let v: Vec<u8> = w.into();
            same_bytes(&v, &end, "wrong-bytes", "the vector taken out of the writer")
        }
        1 | 2 => {
            let pre = if chance(1, 4000) {
                core::probe("vector of about a mebibyte");
                (1usize << pick(&[17, 18, 20])) - choose(700) as usize
            } else {
                choose(20) as usize
            };
            let mut v: Vec<u8> = (0..pre).map(|i| 0xE0u8.wrapping_add(i as u8)).collect();
            let at = match choose(4) {
                0 | 1 if pre < 100 => 0,
                2 => choose(pre as u64 + 3) as usize,
                _ => pre + 2 - choose(40.min(pre as u64 + 2)) as usize,
            };
            tr!("BorrowedVecWriter over {} bytes at {}", pre, at);
            let start = at.min(pre);
            let m = Model {
                buf: v.clone(),
                pos: start,
                initial: start,
                ..m
            };
            let end = {
                let mut w = if at == 0 && chance(1, 2) {
                    BorrowedVecWriter::new(&mut v)
                } else {
                    BorrowedVecWriter::with_offset(&mut v, at)
                };
                history(m, &mut w, None)?
            };
            same_bytes(&v, &end, "wrong-bytes", "the borrowed vector")
        }
        3 => {
            let cap = match weighted(&[20, 20, 20, 1]) {
                3 => (if chance(3, 4) { pick(&LEN_POOL) } else { pick(&BIG_LEN_POOL) }) as u64 + choose(3),
                0 => choose(20),
                1 => choose(300),
                _ => 500 + choose(30),
            } as usize;
            tr!("ByteArrayWriter over {} bytes", cap);
            let mut v: Vec<u8> = (0..cap + 8).map(|i| i as u8 ^ 0x3C).collect();
            let guard = v[cap..].to_vec();
            let p = v.as_ptr();
            let m = Model {
                buf: v[..cap].to_vec(),
                cap: Some(cap),
                ..m
            };
            let end = {
                let mut w = ArrW(ByteArrayWriter::new(&mut v[..cap]), p, cap);
                history(m, &mut w, None)?
            };
            same_bytes(&v[..cap], &end, "wrong-bytes", "the array")?;
            same_bytes(&v[cap..], &guard, "wrong-bytes", "memory behind the array")
        }
        4 => {
            tr!("Cursor<Vec>");
            let mut w = CurW(std::io::Cursor::new(Vec::new()));
            history(Model { sparse: true, ..m }, &mut w, None).map(|_| ())
        }
        5 => {
            let plan = faulty_plan();
            tr!("Write + Seek {:?}", plan);
            let st = stream(Vec::new(), plan);
            let mut w = SeekW(WSStream(st.clone()), st.clone());
            history(Model { sparse: true, ..m }, &mut w, Some(st)).map(|_| ())
        }
        6 => {
            let plan = faulty_plan();
            tr!("WriteWriter {:?}", plan);
            let st = stream(Vec::new(), plan);
            let mut s = WStream(st.clone());
            let mut w = PlainW(WriteWriter::new(&mut s), st.clone());
            history(m, &mut w, Some(st)).map(|_| ())
        }
        _ => {
            let plan = faulty_plan();
            tr!("user-written writer {:?}", plan);
            let st = stream(Vec::new(), plan);
            let mut w = UserW(SimWriter(st.clone()), st.clone());
            history(m, &mut w, Some(st)).map(|_| ())
        }
    }
}

fn put(m: &mut Model, b: &[u8]) {
    if b.is_empty() {
        return;
    }
    if m.pos > m.buf.len() {
        m.buf.resize(m.pos, 0);
    }
    let over = (m.buf.len() - m.pos).min(b.len());
    m.buf[m.pos..m.pos + over].copy_from_slice(&b[..over]);
    m.buf.extend_from_slice(&b[over..]);
    m.pos += b.len();
}

fn history(mut m: Model, o: &mut dyn Ops, st: Option<St>) -> Res<Vec<u8>> {
    let n_ops = 1 + choose(24);
    for _ in 0..n_ops {
        let room = m.cap.map(|c| c - m.pos);
        let (bytes, name, got): (Vec<u8>, String, Result<(), String>) = match choose(9) {
            0 => {
                let b = choose(256) as u8;
                (vec![b], format!("write({:#x})", b), o.w().write(b).map_err(|e| format!("{:?}", e)))
            }
            1 | 2 => {
                let n = match (room, choose(4)) {
                    _ if chance(1, 100) => {
                        if chance(3, 4) {
                            pick(&LEN_POOL)
                        } else {
                            pick(&BIG_LEN_POOL)
                        }
                    }
                    (Some(r), 0) => r,
                    (Some(r), 1) => r + 1,
                    (_, 2) => choose(600) as usize,
                    _ => choose(12) as usize,
                };
                let b = gen_bytes(n);
                let r = if chance(1, 4) {
                    o.w().as_writer().write_all(&b)
                } else {
                    o.w().write_all(&b)
                };
                (b, format!("write_all({} bytes)", n), r.map_err(|e| format!("{:?}", e)))
            }
            3 | 4 | 5 => {
                let v = typed::draw_write(if chance(1, 100) { 3000 } else { 20 });
                let fl = choose(typed::FLAVOURS);
                let r = typed::write(o.w(), &v, fl);
                (typed::bytes_of(&v), format!("typed {:?} flavour {}", v, fl), r)
            }
            6 | 7 => {
                let len = m.buf.len();
                let to = match choose(4) {
                    0 => choose(len as u64 + 1) as usize,
                    1 => len - choose(1 + (len as u64).min(30)) as usize,
                    2 => len,
                    _ if m.sparse => len + choose(10) as usize,
                    _ => pick(&[len + 1, len + 7, usize::MAX, usize::MAX - 1, 1 << 63]),
                };
                if o.set_offset(to) {
                    tr!("set_offset({})", to);
                    core::ev(0x51, to as u64, 0);
                    m.pos = if m.sparse { to } else { to.min(len) };
                    core::probe("writer repositioned");
                }
                compare(&m, o, "set_offset()")?;
                continue;
            }
            _ => {
                let b = chance(1, 2);
                if o.set_ro(b) {
                    tr!("set_read_only({})", b);
                    m.ro = b;
                }
                compare(&m, o, "set_read_only()")?;
                continue;
            }
        };
        core::eval(1);
        tr!("at {}: {} -> {:?}", m.pos, name, got);
        core::ev(0x52, m.pos as u64, got.is_ok() as u64);
        let fired = st.as_ref().map(|s| s.borrow_mut().fired.take().is_some()).unwrap_or(false);
        let fits = room.map(|r| bytes.len() <= r).unwrap_or(true);
        match got {
            Ok(()) => {
                ensure!(!fired, "fault-hidden", "{} succeeded although its sink failed", name);
                ensure!(
                    bytes.is_empty() || (fits && !m.ro),
                    "write-not-refused",
                    "{} succeeded at {} (read-only {}, room {:?})",
                    name,
                    m.pos,
                    m.ro,
                    room
                );
                put(&mut m, &bytes);
                if m.sparse && bytes.is_empty() && m.pos > m.buf.len() {
                    // std's Cursor fills the gap even then
                    let c = o.content();
                    if c.len() == m.pos && c.starts_with(&m.buf) && c[m.buf.len()..].iter().all(|b| *b == 0) {
                        m.buf = c;
                    }
                }
            }
            Err(e) => {
                core::nontrivial();
                core::probe("write refused or failed");
                if fired {
                    // the sink holds an in-order part of what was to be written
                    let now = o.offset().unwrap_or(m.pos);
                    ensure!(
                        now >= m.pos && now <= m.pos + bytes.len(),
                        "wrong-position",
                        "{} failed and left the sink at {} (was {})",
                        name,
                        now,
                        m.pos
                    );
                    let k = now - m.pos;
                    put(&mut m, &bytes[..k]);
                } else {
                    ensure!(m.ro || !fits, "refused", "{} failed with {} at {}", name, e, m.pos);
                }
            }
        }
        compare(&m, o, &name)?;
    }
    Ok(m.buf)
}

fn compare(m: &Model, o: &mut dyn Ops, after: &str) -> Res<()> {
    core::eval(1);
    same_bytes(&o.content(), &m.buf, "wrong-bytes", &format!("content after {}", after))?;
    if let Some(p) = o.offset() {
        ensure!(p == m.pos, "wrong-position", "offset {} instead of {} after {}", p, m.pos, after);
    }
    o.check(m)
}
