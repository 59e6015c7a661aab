//! Decoding never reads past the declared extent.
use super::c04;
use super::typed;
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::tr;
use il2_iltags::io as lio;
use il2_iltags::io::array::ByteArrayReader;
use il2_iltags::io::{LimitedReader, ReadReader, Reader, Writer};
use il2_iltags::tags::payload::{ILGenericPayloadTag, ILTagPayload};
use il2_iltags::tags::util;
use il2_iltags::tags::{ErrorKind, ILDefaultWithIdTagCreator};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub const RULE: &str = "one evaluation compares one operation on a size-limited reader, or one decoding, with the limit in force (bytes requested, delivered, remaining); a history is non-trivial if a fault, a refused request or damage happened";

pub fn run() -> Res<()> {
    match weighted(&[10, 10, 8, 1]) {
        0 => limits(),
        1 => extents(),
        2 => payloads(),
        _ => vast(),
    }
}

// ---------------------------------------------------------------------------------------------
// Size-limited readers

/// Stands under a limited reader and sees every request it makes.
struct Spy<'a> {
    src: &'a mut dyn Reader,
    rem: Rc<Cell<u64>>,
    calls: Rc<Cell<u64>>,
}
impl<'a> Spy<'a> {
    fn ask(&mut self, n: u64) {
        self.calls.set(self.calls.get() + 1);
        if n > self.rem.get() {
            core::pending(
                "limit-exceeded",
                format!("a limited reader asked its source for {} bytes with {} left", n, self.rem.get()),
            );
        }
    }
    fn done<T>(&mut self, n: u64, r: lio::Result<T>) -> lio::Result<T> {
        if r.is_ok() {
            self.rem.set(self.rem.get().saturating_sub(n));
        }
        r
    }
}
impl<'a> Reader for Spy<'a> {
    fn read(&mut self) -> lio::Result<u8> {
        self.ask(1);
        let r = self.src.read();
        self.done(1, r)
    }
    fn read_all(&mut self, b: &mut [u8]) -> lio::Result<()> {
        self.ask(b.len() as u64);
        let r = self.src.read_all(b);
        self.done(b.len() as u64, r)
    }
    fn skip(&mut self, n: usize) -> lio::Result<()> {
        self.ask(n as u64);
        let r = self.src.skip(n);
        self.done(n as u64, r)
    }
    fn skip_u64(&mut self, n: u64) -> lio::Result<()> {
        self.ask(n);
        let r = self.src.skip_u64(n);
        self.done(n, r)
    }
}

struct World {
    data: Vec<u8>,
    st: St,
    faulty: bool,
    ops: u64,
    /// what the enclosing readers still allow
    ups: Vec<Rc<Cell<u64>>>,
}
impl World {
    fn pos(&self) -> u64 {
        self.st.borrow().pos
    }
}

fn limits() -> Res<()> {
    let n = pick(&[0u64, 3, 10, 40, 300, 1200]);
    let data = gen_bytes(choose(n + 1) as usize);
    let mut plan = Plan::benign(data.len());
    let faulty = chance(1, 2);
    if faulty {
        plan.fail = Some(Fail {
            at: cut_pos(data.len(), &[]),
            how: if chance(1, 3) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) },
            sticky: chance(1, 2),
            partial: chance(1, 2),
            id: 5,
        });
    }
    let kind = choose(4);
    sample(|| format!("limited readers over {} bytes, source kind {}, plan {:?}", data.len(), kind, plan));
    tr!("data {}, source kind {}, plan {:?}", hex(&data), kind, plan);
    core::ev(0x60, kind, data.len() as u64);
    let st = stream(data.clone(), plan);
    let mut w = World {
        data,
        st: st.clone(),
        faulty,
        ops: 30,
        ups: Vec::new(),
    };
    let depth = 1 + choose(4);
    match kind {
        0 => level(&mut SimReader(st), &mut w, depth),
        1 => level(&mut RSStream(st), &mut w, depth),
        2 => level(&mut AtomicReader(st), &mut w, depth),
        _ => {
            let mut s = RStream(st);
            level(&mut ReadReader::new(&mut s), &mut w, depth)
        }
    }
}

fn level(src: &mut dyn Reader, w: &mut World, depth: u64) -> Res<()> {
    let left = (w.data.len() as u64).saturating_sub(w.pos());
    let limit = match choose(8) {
        0 => left,
        1 => left + 1 + choose(5),
        2 => pick(&[usize::MAX as u64, usize::MAX as u64 - 1, 1 << 63, 1 << 32]),
        3 => 0,
        4 => choose(4),
        _ => choose(left + 1),
    };
    let rem = Rc::new(Cell::new(limit));
    let calls = Rc::new(Cell::new(0u64));
    let mut spy = Spy {
        src,
        rem: rem.clone(),
        calls: calls.clone(),
    };
    tr!("LimitedReader::new(_, {})", limit);
    let mut l = LimitedReader::new(&mut spy, limit as usize);
    let n_ops = 1 + choose(8);
    for _ in 0..n_ops {
        if w.ops == 0 {
            break;
        }
        w.ops -= 1;
        let a = l.available() as u64;
        ensure!(
            a == rem.get(),
            "wrong-remaining",
            "available() is {} although {} of {} bytes were delivered",
            a,
            limit - rem.get(),
            limit
        );
        ensure!(l.empty() == (a == 0), "wrong-remaining", "empty() is {} with {} bytes left", l.empty(), a);
        let before = w.pos();
        let mut here = (w.data.len() as u64).saturating_sub(before);
        for u in &w.ups {
            here = here.min(u.get());
        }
        let calls0 = calls.get();
        let fired0 = w.st.borrow_mut().fired.take();
        let _ = fired0;
        let n = match choose(8) {
            0 => a,
            1 => a.saturating_add(1),
            2 => pick(&[u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32]),
            3 => 0,
            4 => a.saturating_add(1 + choose(600)),
            _ => choose(a.min(1500) + 1),
        };
        let mut name = String::new();
        let mut exp: Option<Vec<u8>> = None;
        let want: u64;
        let mut single = true;
        let r: Result<Option<Vec<u8>>, String> = match choose(9) {
            0 => {
                name.push_str("read()");
                want = 1;
                if here >= 1 {
                    exp = Some(vec![w.data[before as usize]]);
                }
                l.read().map(|b| Some(vec![b])).map_err(|e| format!("{:?}", e))
            }
            1 | 2 => {
                let n = n.min(4000);
                name = format!("read_all({})", n);
                want = n;
                if n <= here {
                    exp = Some(w.data[before as usize..(before + n) as usize].to_vec());
                }
                let mut b = vec![0u8; n as usize];
                let r = l.read_all(&mut b);
                r.map(|_| Some(b)).map_err(|e| format!("{:?}", e))
            }
            3 => {
                name = format!("skip({})", n);
                want = n;
                l.skip(n as usize).map(|_| None).map_err(|e| format!("{:?}", e))
            }
            4 => {
                name = format!("skip_u64({})", n);
                want = n;
                l.skip_u64(n).map(|_| None).map_err(|e| format!("{:?}", e))
            }
            5 => {
                core::eval(1);
                let c = l.can_read(n as usize);
                ensure!(
                    c.is_ok() == (n <= a) && calls.get() == calls0,
                    "wrong-remaining",
                    "can_read({}) with {} left: {:?}",
                    n,
                    a,
                    c
                );
                let e = util::limited_reader_ensure_empty(&l, ErrorKind::TagTooLarge);
                ensure!(
                    match e {
                        Ok(()) => a == 0,
                        Err(ErrorKind::TagTooLarge) => a > 0,
                        _ => false,
                    },
                    "wrong-remaining",
                    "limited_reader_ensure_empty() is wrong with {} left",
                    a
                );
                continue;
            }
            6 => {
                name.push_str("goto_end()");
                want = a;
                l.goto_end().map(|_| None).map_err(|e| format!("{:?}", e))
            }
            7 => {
                let op = typed::draw_read(30);
                name = format!("typed {:?}", op);
                let d: &[u8] = if here == 0 { &[] } else { &w.data[before as usize..(before + here) as usize] };
                let lim = &d[..(d.len() as u64).min(a) as usize];
                let e = typed::expect(&op, lim);
                let fl = choose(typed::FLAVOURS);
                let r = typed::read(&mut l, &op, fl);
                core::eval(1);
                let fired = w.st.borrow().fired.is_some();
                match (r, e) {
                    (Ok(v), Ok((x, n))) => {
                        ensure!(v == x, "wrong-value", "{} gave {} instead of {}", name, hex(&v), hex(&x));
                        ensure!(
                            l.available() as u64 == a - n as u64,
                            "wrong-remaining",
                            "{} left {} of {}",
                            name,
                            l.available(),
                            a
                        );
                    }
                    (Ok(v), Err(_)) => return core::viol("limit-exceeded", format!("{} gave {} with {} left", name, hex(&v), a)),
                    (Err(e), Ok(_)) if !fired => return core::viol("refused", format!("{} failed with {} ({} left)", name, e, a)),
                    (Err(_), _) => {
                        core::nontrivial();
                        // a composite read may have taken its first part
                        let now = l.available() as u64;
                        ensure!(
                            now == rem.get() && now <= a,
                            "wrong-remaining",
                            "{} failed and left {} of {}, delivered {}",
                            name,
                            now,
                            a,
                            a - rem.get()
                        );
                    }
                }
                core::take_pending()?;
                continue;
            }
            _ => {
                if depth > 0 {
                    w.ups.push(rem.clone());
                    level(&mut DynR(&mut l), w, depth - 1)?;
                    w.ups.pop();
                    core::take_pending()?;
                }
                continue;
            }
        };
        if want > 512 && name.starts_with("skip") {
            single = false;
        }
        core::eval(1);
        core::ev(0x61, want, r.is_ok() as u64);
        tr!("at {} with {} left: {} -> {:?}", before, a, name, r.as_ref().map(|b| b.as_ref().map(|b| hex(b))));
        core::take_pending()?;
        let fired = w.st.borrow().fired.is_some();
        let now = l.available() as u64;
        if want > a {
            core::nontrivial();
            core::probe("request beyond the limit");
            ensure!(r.is_err(), "limit-exceeded", "{} succeeded with {} left", name, a);
            ensure!(
                calls.get() == calls0 && w.pos() == before && now == a,
                "limit-exceeded",
                "{} with {} left touched the source ({} calls, {} bytes) and left {}",
                name,
                a,
                calls.get() - calls0,
                w.pos() - before,
                now
            );
            continue;
        }
        match r {
            Ok(b) => {
                if let (Some(b), Some(e)) = (&b, &exp) {
                    ensure!(b == e, "wrong-value", "{} gave {} instead of {}", name, hex(b), hex(e));
                }
                ensure!(want <= here, "invented-data", "{} succeeded with {} bytes in the source", name, here);
                ensure!(
                    now == a - want && w.pos() == before + want,
                    "wrong-remaining",
                    "after {} {} of {} are left, source moved by {}",
                    name,
                    now,
                    a,
                    w.pos() - before
                );
            }
            Err(e) => {
                core::nontrivial();
                ensure!(
                    fired || want > here,
                    "refused",
                    "{} failed with {} although {} bytes are allowed and {} there",
                    name,
                    e,
                    a,
                    here
                );
                ensure!(
                    now == rem.get(),
                    "wrong-remaining",
                    "{} failed and left {} of {}, delivered {}",
                    name,
                    now,
                    a,
                    a - rem.get()
                );
                if single {
                    ensure!(now == a, "wrong-remaining", "{} failed and left {} of {}", name, now, a);
                }
            }
        }
    }
    let a = l.available() as u64;
    ensure!(
        a == rem.get(),
        "wrong-remaining",
        "available() is {} although {} of {} bytes were delivered",
        a,
        limit - rem.get(),
        limit
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Extents of damaged tags

/// Limits and counts beyond 4 GiB, on a medium that has that much.
fn vast() -> Res<()> {
    let len = match choose(3) {
        0 => u64::MAX >> 1,
        _ => (1u64 << pick(&[31, 32, 33, 36])) + choose(100) - 50,
    };
    let m = Sparse::new(len);
    sample(|| format!("limited readers over a medium of {} bytes", len));
    core::fault("stream larger than memory");
    core::nontrivial();
    core::ev(0x61, len, 0);
    match choose(2) {
        0 => {
            let mut m = m;
            vast_level(&mut m, len, 0, 1 + choose(3)).map(|_| ())
        }
        _ => vast_level(&mut SparseReader(m), len, 0, 1 + choose(3)).map(|_| ()),
    }
}

/// Returns the bytes taken from the source; `left` bytes are left in it and it stands at `at`.
fn vast_level(src: &mut dyn Reader, left: u64, at: u64, depth: u64) -> Res<(u64, bool)> {
    let around = |n: u64| n.saturating_add(choose(5)).saturating_sub(2);
    let big = |n: u64| match choose(7) {
        0 => choose(10),
        1 => 1u64 << 31,
        2 => around(1u64 << 32),
        3 => around(n),
        4 => core::range(0, n),
        5 => around(n / 2),
        _ => u64::MAX - choose(4),
    };
    let limit = big(left);
    let mut avail = limit;
    let mut pos = at;
    let end = at.saturating_add(left);
    let mut l = LimitedReader::new(src, limit as usize);
    tr!("LimitedReader::new(_, {}) at {} with {} left in the source", limit, at, left);
    for _ in 0..2 + choose(6) {
        let can = avail.min(end - pos);
        match choose(5) {
            0 | 1 => {
                let n = big(can);
                let r = if chance(1, 2) { l.skip(n as usize) } else { l.skip_u64(n) };
                tr!("skip {}: {:?}", n, r.is_ok());
                core::eval(1);
                ensure!(
                    r.is_ok() == (n <= can),
                    "wrong-outcome",
                    "skip of {} gave {:?} with {} allowed and {} left in the source",
                    n,
                    r,
                    avail,
                    end - pos
                );
                if r.is_ok() {
                    avail -= n;
                    pos += n;
                } else if n <= avail {
                    return Ok((pos - at, true));
                }
            }
            2 => {
                let n = choose(20);
                let mut b = vec![0u8; n as usize];
                let r = if n == 1 { l.read().map(|x| b[0] = x) } else { l.read_all(&mut b) };
                core::eval(1);
                ensure!(r.is_ok() == (n <= can), "wrong-outcome", "reading {} gave {:?} with {} allowed and {} left in the source", n, r, avail, end - pos);
                if r.is_ok() {
                    for (i, x) in b.iter().enumerate() {
                        ensure!(*x == core::mix(pos + i as u64) as u8, "wrong-bytes", "byte {} behind a limited reader is {}", pos + i as u64, x);
                    }
                    avail -= n;
                    pos += n;
                } else if n <= avail {
                    return Ok((pos - at, true));
                }
            }
            3 if depth > 0 => {
                let (n, broken) = vast_level(&mut l, can, pos, depth - 1)?;
                if l.available() as u64 != avail - n {
                    return core::viol("wrong-remaining", format!("available() is {} after {} of {} bytes were taken through an inner limit", l.available(), n, avail));
                }
                avail -= n;
                pos += n;
                if broken {
                    return Ok((pos - at, true));
                }
            }
            _ => {
                let n = big(can);
                let r = l.can_read(n as usize);
                core::eval(1);
                ensure!(r.is_ok() == (n <= avail), "wrong-outcome", "can_read({}) is {:?} with {} allowed", n, r, avail);
                ensure!(l.empty() == (avail == 0), "wrong-remaining", "empty() is {} with {} allowed", l.empty(), avail);
            }
        }
        core::eval(1);
        ensure!(l.available() as u64 == avail, "wrong-remaining", "available() is {} instead of {}", l.available(), avail);
    }
    if chance(1, 3) && avail <= end - pos {
        let r = l.goto_end();
        core::eval(1);
        ensure!(r.is_ok() && l.available() == 0, "wrong-remaining", "goto_end() gave {:?} and left {} of {}", r, l.available(), avail);
        pos += avail;
    }
    Ok((pos - at, false))
}

/// End of the extent the header at the start of `b` declares; how far one may read at most.
fn declared(b: &[u8], reg: &Reg) -> usize {
    fn int(b: &[u8], at: usize) -> (Option<u64>, usize) {
        let h = match b.get(at) {
            Some(h) => *h,
            None => return (None, at),
        };
        if h < 0xF8 {
            return (Some(h as u64), at + 1);
        }
        let n = (h - 0xF8) as usize + 1;
        let end = at + 1 + n;
        if b.len() < end {
            return (None, end);
        }
        let mut v: u64 = 0;
        for x in &b[at + 1..end] {
            v = (v << 8) | *x as u64;
        }
        (v.checked_add(0xF8), end)
    }
    let (id, at) = int(b, 0);
    let id = match id {
        Some(id) => id,
        None => return at,
    };
    if id <= 15 {
        if reg.kind(id).is_none() {
            return at;
        }
        return match std_kind(id) {
            Some(Kind::Null) | None => at,
            Some(Kind::Bool) => at + 1,
            Some(Kind::ILInt) | Some(Kind::SILInt) => match b.get(at) {
                Some(h) if *h >= 0xF8 => at + 2 + (*h - 0xF8) as usize,
                _ => at + 1,
            },
            Some(k) => at + fixed_len(k).unwrap_or(0),
        };
    }
    let (n, at) = int(b, at);
    match n {
        // too large, or unknown: nothing beyond the header is wanted
        Some(n) if n > MAX_TAG || reg.kind(id).is_none() => at,
        Some(n) => at.saturating_add(n as usize),
        None => at,
    }
}

fn extents() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let mut g = Gen::sized(&reg, &[30, 100, 500], 3);
    let t = g.tag();
    let mut e = Enc {
        wide: chance(1, 5),
        ..Default::default()
    };
    e.tag(&t);
    g.budget = 40;
    let sentinel = [enc(&g.tag()), vec![3, 7], vec![22, 2, 3, 1], vec![17, 1, b's'], vec![0; 20]].concat();
    for _ in 0..1 + choose(8) {
        let mut b = e.out.clone();
        if !chance(1, 8) {
            if chance(1, 2) {
                resize_one(&mut b, &e);
            } else {
                for _ in 0..1 + choose(2) {
                    c04::damage(&mut b, &e, &sentinel);
                }
            }
        }
        b.truncate(20_000);
        b.extend_from_slice(&sentinel);
        let mut p = Parser::new(&reg);
        let want = p.tag(&b);
        if p.claimed > 4_000_000 && !chance(1, 40) {
            continue;
        }
        let dup = p.dup;
        let ext = declared(&b, &reg).min(b.len()) as u64;
        sample(|| format!("{} declares {} bytes, more follows", hex(&b), ext));
        let kind = pick(&[SrcKind::User, SrcKind::ReadReader, SrcKind::Seekable, SrcKind::UserAtomic, SrcKind::Nested, SrcKind::Array]);
        let into = chance(1, 4);
        tr!("bytes {} extent {} model {:?}", hex(&b), ext, want.as_ref().map(|(t, n)| (t.short(), *n)));
        core::ev(0x62, ext, core::digest(&b));
        with_source(kind, &b, Plan::benign(b.len()), |s, st| {
            let r = match (into, c04::header(&b, &reg)) {
                (true, Some((id, k))) => {
                    let mut t = blank(id, k);
                    f.deserialize_into(s.r(), t.as_mut()).map(|_| t)
                }
                _ => f.deserialize(s.r()),
            };
            core::eval(1);
            let high = match st {
                Some(st) => st.borrow().high.max(st.borrow().pos),
                None => s.pos().unwrap_or(0),
            };
            ensure!(
                high <= ext,
                "read-past-extent",
                "{:?}: decoding took {} bytes, the header declares {}: {}",
                kind,
                high,
                ext,
                hex(&b)
            );
            match (r, want) {
                (Ok(t), Ok((m, _))) => {
                    if !dup {
                        same(t.as_ref(), &m, &reg, "decoded from within its extent")?;
                    }
                    ensure!(high == ext, "unread-bytes", "decoding took {} of {} declared bytes: {}", high, ext, hex(&b));
                }
                (Err(_), Err(_)) => (),
                (Err(_), Ok(_)) if dup => (),
                (Ok(t), Err(e)) => {
                    return core::viol(
                        "accepted-garbage",
                        format!("tag {} although the extents do not fit ({:?}): {}", t.id(), e, hex(&b)),
                    )
                }
                (Err(e), Ok((m, _))) => {
                    return core::viol("rejected-encoding", format!("{:?} for {}: {}", e, m.short(), hex(&b)))
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// Changes one size or count field by a little; what follows is shifted only by the field itself.
fn resize_one(b: &mut Vec<u8>, e: &Enc) {
    let c: Vec<&Field> = e.fields.iter().filter(|f| matches!(f.fk, FK::Size | FK::Count)).collect();
    if c.is_empty() {
        return;
    }
    core::fault("size field changed");
    let f = pick(&c);
    let old = match typed::expect(&typed::RT::ILInt, &b[f.off..f.off + f.len]) {
        Ok((v, _)) => {
            let mut x = [0u8; 8];
            x.copy_from_slice(&v);
            u64::from_be_bytes(x)
        }
        Err(_) => return,
    };
    let d = 1 + choose(4);
    let new = if chance(1, 2) { old.saturating_add(d) } else { old.saturating_sub(d) };
    let mut v = Vec::new();
    ilint_put(&mut v, new);
    b.splice(f.off..f.off + f.len, v);
}

// ---------------------------------------------------------------------------------------------
// Misbehaving payloads

#[derive(Clone, Debug)]
enum Step {
    Read,
    All(usize),
    Skip(usize),
    SkipU64(u64),
    Typed(typed::RT),
    /// decode a tag with the factory
    Tag,
}

#[derive(Clone, Default)]
struct Script {
    steps: Vec<Step>,
    /// absolute position of the end of the value currently decoded is not known to the payload; the
    /// value bytes are
    value: Vec<u8>,
    got: Option<usize>,
    size: usize,
    calls: u64,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}

#[derive(Default)]
struct Scripted;

impl ILTagPayload for Scripted {
    fn serialized_size(&self) -> usize {
        0
    }
    fn serialize(&self, _writer: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        Ok(())
    }
    fn deserialize(
        &mut self,
        factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> il2_iltags::tags::Result<()> {
        let s = SCRIPT.with(|s| s.borrow().clone());
        let mut at = 0usize;
        if value_size != s.value.len() {
            core::pending(
                "wrong-size",
                format!("a payload of {} bytes was told {}", s.value.len(), value_size),
            );
        }
        for step in &s.steps {
            let left = s.value.len() - at;
            let rest = &s.value[at..];
            let mut taken: Option<usize> = None;
            let ok: Result<(), String> = match step {
                Step::Read => match reader.read() {
                    Ok(b) => {
                        if rest.first() != Some(&b) {
                            core::pending("read-past-extent", format!("a payload with {} bytes left read {:#x}", left, b));
                        }
                        taken = Some(1);
                        Ok(())
                    }
                    Err(_) if left >= 1 => Err("read()".into()),
                    Err(_) => Ok(()),
                },
                Step::All(n) => {
                    let mut b = vec![0u8; *n];
                    match reader.read_all(&mut b) {
                        Ok(()) => {
                            if *n > left || b[..] != rest[..*n] {
                                core::pending("read-past-extent", format!("a payload with {} bytes left read {}", left, hex(&b)));
                            }
                            taken = Some(*n);
                            Ok(())
                        }
                        Err(_) if left >= *n => Err(format!("read_all({})", n)),
                        Err(_) => Ok(()),
                    }
                }
                Step::Skip(n) => match reader.skip(*n) {
                    Ok(()) => {
                        taken = Some(*n);
                        Ok(())
                    }
                    Err(_) if left >= *n => Err(format!("skip({})", n)),
                    Err(_) => Ok(()),
                },
                Step::SkipU64(n) => match reader.skip_u64(*n) {
                    Ok(()) => {
                        taken = Some(*n as usize);
                        Ok(())
                    }
                    Err(_) if left as u64 >= *n => Err(format!("skip_u64({})", n)),
                    Err(_) => Ok(()),
                },
                Step::Typed(op) => match (typed::read(reader, op, choose(typed::FLAVOURS)), typed::expect(op, rest)) {
                    (Ok(v), Ok((x, n))) => {
                        if v != x {
                            core::pending("wrong-value", format!("a payload read {} instead of {}", hex(&v), hex(&x)));
                        }
                        taken = Some(n);
                        Ok(())
                    }
                    (Ok(v), Err(_)) => {
                        core::pending("read-past-extent", format!("a payload with {} bytes left read {}", left, hex(&v)));
                        Ok(())
                    }
                    (Err(_), Ok(_)) => Err(format!("{:?}", op)),
                    // a composite read may have taken part of its bytes: the script ends here
                    (Err(_), Err(_)) => {
                        SCRIPT.with(|s| s.borrow_mut().got = None);
                        return Err(ErrorKind::UnsupportedTag);
                    }
                },
                Step::Tag => {
                    let reg = Reg::std(false);
                    let mut p = Parser::new(&reg);
                    match (factory.deserialize(reader), p.tag(rest)) {
                        (Ok(_), Ok((_, n))) => {
                            taken = Some(n);
                            Ok(())
                        }
                        (Ok(t), Err(_)) => {
                            if !p.dup {
                                core::pending("read-past-extent", format!("a payload with {} bytes left decoded tag {}", left, t.id()));
                            }
                            SCRIPT.with(|s| s.borrow_mut().got = None);
                            return Err(ErrorKind::UnsupportedTag);
                        }
                        (Err(_), Ok(_)) if !p.dup => Err("nested tag".into()),
                        (Err(_), _) => {
                            SCRIPT.with(|s| s.borrow_mut().got = None);
                            return Err(ErrorKind::UnsupportedTag);
                        }
                    }
                }
            };
            if let Err(name) = ok {
                core::pending("refused", format!("{} failed with {} bytes of the value left", name, left));
            }
            if let Some(n) = taken {
                if n > left {
                    core::pending("read-past-extent", format!("a payload with {} bytes left took {}", left, n));
                    at = s.value.len();
                } else {
                    at += n;
                }
            } else {
                core::fault("payload asks for more than its value");
            }
        }
        SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            s.got = Some(at);
            s.size = value_size;
            s.calls += 1;
        });
        Ok(())
    }
}

fn payloads() -> Res<()> {
    let mut reg = Reg::std(chance(1, 3));
    // also where the extent follows from the id alone
    let id = if chance(1, 3) { pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13]) } else { pick(&[40u64, 300, 70_000]) };
    let mut f = make_factory(&reg);
    f.engine()
        .register(id, Box::new(ILDefaultWithIdTagCreator::<ILGenericPayloadTag<Scripted>>::default()));
    reg.map.insert(id, Kind::Raw);
    // the value: sometimes made of tags
    let mut value = Vec::new();
    if chance(1, 2) {
        let std = Reg::std(true);
        let mut g = Gen::new(&std, 40, 1);
        for _ in 0..choose(3) {
            value.extend(enc(&g.tag()));
        }
    }
    let k = choose(30) as usize;
    value.extend(gen_bytes(k));
    if chance(1, 6) {
        let k = choose(if chance(1, 6) { 12_000 } else { 1200 }) as usize;
        value.extend(gen_bytes(k));
    }
    if id < 16 {
        let n = match id {
            0 => 0,
            1 => 1,
            _ => std_kind(id).and_then(fixed_len).expect("fixed"),
        };
        value.resize(n, 0x16);
    }
    // the script: reads everything, too little, or tries to take too much
    let goal = match choose(4) {
        0 => value.len(),
        1 => choose(value.len() as u64 + 1) as usize,
        _ => value.len(),
    };
    let mut steps = Vec::new();
    let mut at = 0;
    while at < goal && steps.len() < 8 {
        let left = goal - at;
        match choose(8) {
            0 => {
                steps.push(Step::Read);
                at += 1;
            }
            1 | 2 => {
                let n = 1 + choose(left as u64) as usize;
                steps.push(Step::All(n));
                at += n;
            }
            3 => {
                let n = 1 + choose(left as u64) as usize;
                steps.push(Step::Skip(n));
                at += n;
            }
            4 => {
                let n = 1 + choose(left as u64) as usize;
                steps.push(Step::SkipU64(n as u64));
                at += n;
            }
            5 => {
                let op = typed::draw_read(8);
                if let Ok((_, n)) = typed::expect(&op, &value[at..goal]) {
                    steps.push(Step::Typed(op));
                    at += n;
                }
            }
            6 => {
                let std = Reg::std(false);
                if let Ok((t, n)) = Parser::new(&std).tag(&value[at..goal]) {
                    if reg.strict || has(&t, id) {
                        steps.push(Step::All(n));
                    } else {
                        steps.push(Step::Tag);
                    }
                    at += n;
                }
            }
            _ => steps.push(over(value.len() - at)),
        }
    }
    if at < goal {
        steps.push(Step::All(goal - at));
    }
    if chance(2, 3) {
        for _ in 0..1 + choose(3) {
            steps.push(over(value.len() - goal));
        }
    }
    // around it: containers and siblings
    let node = MTag {
        id,
        kind: Kind::Raw,
        val: Val::Bytes(value.clone()),
    };
    let sib = |g: &mut Gen| {
        let t = g.tag_depth(0);
        if has(&t, id) {
            MTag {
                id: 17,
                kind: Kind::Str,
                val: Val::Str("s".into()),
            }
        } else {
            t
        }
    };
    let std = Reg::std(true);
    let mut g = Gen::new(&std, 60, 1);
    let mut t = node;
    for _ in 0..choose(4) {
        let mut v = Vec::new();
        if chance(1, 2) {
            v.push(sib(&mut g));
        }
        v.push(t);
        if chance(1, 2) {
            v.push(sib(&mut g));
        }
        t = match choose(3) {
            0 => MTag {
                id: 22,
                kind: Kind::Seq,
                val: Val::Tags(v),
            },
            1 => MTag {
                id: 21,
                kind: Kind::TagArr,
                val: Val::Tags(v),
            },
            _ => MTag {
                id: 30,
                kind: Kind::Dict,
                val: Val::Dict(v.into_iter().enumerate().map(|(i, t)| (format!("{}", i), t)).collect()),
            },
        };
    }
    let mut b = enc(&t);
    let ext = b.len() as u64;
    let extra = choose(40) as usize;
    b.extend(std::iter::repeat(0x16).take(extra));
    SCRIPT.with(|s| {
        *s.borrow_mut() = Script {
            steps: steps.clone(),
            value: value.clone(),
            ..Default::default()
        }
    });
    sample(|| format!("payload of {} bytes, script {:?}, {} bytes in all", value.len(), steps, b.len()));
    tr!("value {} script {:?} bytes {}", hex(&value), steps, hex(&b));
    core::ev(0x63, ext, core::digest(&b));
    let kind = pick(&[SrcKind::User, SrcKind::ReadReader, SrcKind::Seekable, SrcKind::UserAtomic, SrcKind::Array, SrcKind::Cursor, SrcKind::Limited]);
    let direct = chance(1, 6);
    with_source(kind, &b, Plan::benign(b.len()), |s, st| {
        let r = f.deserialize(s.r());
        core::eval(1);
        let sc = SCRIPT.with(|s| s.borrow().clone());
        core::take_pending()?;
        let high = match st {
            Some(st) => st.borrow().high.max(st.borrow().pos),
            None => s.pos().unwrap_or(0),
        };
        ensure!(
            high <= ext,
            "read-past-extent",
            "{:?}: decoding took {} bytes of an extent of {}",
            kind,
            high,
            ext
        );
        match (&r, sc.got) {
            (Ok(_), Some(n)) if n == value.len() => {
                ensure!(high == ext, "unread-bytes", "decoding took {} of {} declared bytes", high, ext)
            }
            (Ok(_), g) => {
                return core::viol(
                    "unread-bytes",
                    format!("a payload took {:?} of {} bytes and decoding reports success", g, value.len()),
                )
            }
            (Err(ErrorKind::CorruptedData), Some(n)) if n < value.len() => core::probe("payload left bytes unread"),
            (Err(ErrorKind::UnsupportedTag), None) => (),
            (Err(e), g) => {
                return core::viol(
                    "wrong-error",
                    format!("a payload took {:?} of {} bytes and decoding reports {:?}", g, value.len(), e),
                )
            }
        }
        Ok(())
    })?;
    if direct {
        // the value alone, through deserialize_value() of the tag
        let mut tag = f.create_tag(id).expect("registered");
        let mut all = value.clone();
        all.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
        let mut r = ByteArrayReader::new(&all);
        let mut l = LimitedReader::new(&mut r, value.len());
        let _ = tag.deserialize_value(&f, value.len(), &mut l);
        core::take_pending()?;
    }
    Ok(())
}

fn has(t: &MTag, id: u64) -> bool {
    t.id == id || t.children().iter().any(|c| has(c, id))
}

fn over(left: usize) -> Step {
    let n = left + 1 + choose(6) as usize;
    match choose(6) {
        0 => Step::All(n),
        1 => Step::Skip(n),
        2 => Step::SkipU64(n as u64),
        3 => Step::Skip(pick(&[usize::MAX, usize::MAX - 1, 1 << 63])),
        4 => Step::SkipU64(pick(&[u64::MAX, u64::MAX - 1, 1 << 63])),
        _ => Step::All(n + 600),
    }
}
