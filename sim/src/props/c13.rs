//! Failed or repeated operations leave no residue.
use super::c04::damage;
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::probe::{self, Ctl, Spec};
use crate::tr;
use il2_iltags::io::array::{ByteArrayReader, ByteArrayWriter, VecWriter};
use il2_iltags::io::LimitedReader;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{tag_downcast_mut, util, ErrorKind};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const RULE: &str = "one evaluation compares the state of a reused tag, factory or writer with a fresh one after an attempt; a history is non-trivial if an earlier attempt on the same object failed or the object held something else before";

pub fn run() -> Res<()> {
    match weighted(&[10, 2, 2, 1]) {
        0 => reuse(),
        1 => writers(),
        2 => factory(),
        _ => buffers(),
    }
}

/// An object that is decoded into again and again.
struct Obj {
    real: Box<dyn ILTag>,
    kind: Kind,
    id: u64,
    /// None after a failed attempt
    state: Option<MTag>,
    failures: u64,
    history: String,
}

/// Replaces the whole content through the setters, as an application reusing the tag would.
pub fn assign(t: &mut dyn ILTag, m: &MTag) {
    macro_rules! set {
        ($ty:ty, $v:expr) => {
            tag_downcast_mut::<$ty>(t).expect("type").set_value($v)
        };
    }
    macro_rules! vec {
        ($ty:ty, $v:expr) => {{
            let x = tag_downcast_mut::<$ty>(t).expect("type").mut_value();
            x.clear();
            x.extend($v);
        }};
    }
    fn be<const N: usize>(b: &[u8]) -> [u8; N] {
        let mut r = [0u8; N];
        r.copy_from_slice(b);
        r
    }
    match (&m.val, m.kind) {
        (Val::Null, _) => (),
        (Val::Bool(b), _) => set!(ILBoolTag, *b),
        (Val::Fixed(b), Kind::I8) => set!(ILInt8Tag, b[0] as i8),
        (Val::Fixed(b), Kind::U8) => set!(ILUInt8Tag, b[0]),
        (Val::Fixed(b), Kind::I16) => set!(ILInt16Tag, i16::from_be_bytes(be(b))),
        (Val::Fixed(b), Kind::U16) => set!(ILUInt16Tag, u16::from_be_bytes(be(b))),
        (Val::Fixed(b), Kind::I32) => set!(ILInt32Tag, i32::from_be_bytes(be(b))),
        (Val::Fixed(b), Kind::U32) => set!(ILUInt32Tag, u32::from_be_bytes(be(b))),
        (Val::Fixed(b), Kind::I64) => set!(ILInt64Tag, i64::from_be_bytes(be(b))),
        (Val::Fixed(b), Kind::U64) => set!(ILUInt64Tag, u64::from_be_bytes(be(b))),
        (Val::Fixed(b), Kind::F32) => set!(ILBin32Tag, f32::from_bits(u32::from_be_bytes(be(b)))),
        (Val::Fixed(b), Kind::F64) => set!(ILBin64Tag, f64::from_bits(u64::from_be_bytes(be(b)))),
        (Val::Fixed(b), _) => set!(ILBin128Tag, &be::<16>(b)),
        (Val::ILInt(v), _) => set!(ILILInt64Tag, *v),
        (Val::SILInt(v), _) => set!(ILSignedILInt64Tag, *v),
        (Val::Bytes(b), Kind::Bytes) => vec!(ILByteArrayTag, b.iter().cloned()),
        (Val::Bytes(b), Kind::BigInt) => vec!(ILBigIntTag, b.iter().cloned()),
        (Val::Bytes(b), _) => set!(il2_iltags::tags::ILRawTag, b),
        (Val::Str(s), _) => set!(ILStringTag, s),
        (Val::BigDec(s, b), _) => {
            let x = tag_downcast_mut::<ILBigDecTag>(t).expect("type");
            x.set_scale(*s);
            x.mut_value().clear();
            x.mut_value().extend_from_slice(b);
        }
        (Val::Ints(v), Kind::IntArr) => set!(ILILIntArrayTag, v),
        (Val::Ints(v), _) => set!(ILOIDTag, v),
        (Val::Tags(v), Kind::Seq) => vec!(ILTagSeqTag, v.iter().map(build)),
        (Val::Tags(v), _) => vec!(ILTagArrayTag, v.iter().map(build)),
        (Val::Range(s, c), _) => tag_downcast_mut::<ILRangeTag>(t).expect("type").set_value(*s, *c),
        (Val::Version(v), _) => tag_downcast_mut::<ILVersionTag>(t).expect("type").set_value(v[0], v[1], v[2], v[3]),
        (Val::Dict(d), _) => {
            let x = tag_downcast_mut::<ILDictTag>(t).expect("type");
            x.mut_value().clear();
            for (k, v) in d {
                x.insert(k, build(v));
            }
        }
        (Val::StrDict(d), _) => {
            let x = tag_downcast_mut::<ILStrDictTag>(t).expect("type");
            x.mut_value().clear();
            for (k, v) in d {
                x.insert(k, v);
            }
        }
        (Val::Payload(p), _) => {
            let q = tag_downcast_mut::<RecTag>(t).expect("type").mut_payload();
            q.a = p.a;
            q.b = p.b;
            q.c = p.c;
            q.flag = p.flag;
            q.tag = p.tag.as_ref().map(|t| build(t));
            q.rest = p.rest.clone();
        }
    }
}

/// A small change through the setters; the model follows.
fn tweak(t: &mut dyn ILTag, m: &mut MTag, reg: &Reg) -> Res<()> {
    match &mut m.val {
        Val::Bytes(b) => {
            b.push(7);
            let c = b.clone();
            match m.kind {
                Kind::Bytes => tag_downcast_mut::<ILByteArrayTag>(t).expect("type").mut_value().push(7),
                Kind::BigInt => tag_downcast_mut::<ILBigIntTag>(t).expect("type").mut_value().push(7),
                _ => tag_downcast_mut::<il2_iltags::tags::ILRawTag>(t).expect("type").set_value(&c),
            }
        }
        Val::Str(s) => {
            if chance(1, 2) {
                s.push('é');
                tag_downcast_mut::<ILStringTag>(t).expect("type").mut_value().push('é');
            } else {
                s.clear();
                tag_downcast_mut::<ILStringTag>(t).expect("type").mut_value().clear();
            }
        }
        Val::Ints(v) => {
            let x = match m.kind {
                Kind::IntArr => tag_downcast_mut::<ILILIntArrayTag>(t).expect("type").mut_value(),
                _ => tag_downcast_mut::<ILOIDTag>(t).expect("type").mut_value(),
            };
            if chance(1, 2) {
                v.push(300);
                x.push(300);
            } else {
                v.pop();
                x.pop();
            }
        }
        Val::Tags(v) => {
            let x = match m.kind {
                Kind::Seq => tag_downcast_mut::<ILTagSeqTag>(t).expect("type").mut_value(),
                _ => tag_downcast_mut::<ILTagArrayTag>(t).expect("type").mut_value(),
            };
            if chance(1, 2) && reg.kind(17) == Some(Kind::Str) {
                let s = MTag { id: 17, kind: Kind::Str, val: Val::Str("x".into()) };
                x.insert(0, build_plain(&s));
                v.insert(0, s);
            } else {
                v.pop();
                x.pop();
            }
        }
        Val::Dict(d) => {
            let x = tag_downcast_mut::<ILDictTag>(t).expect("type");
            match d.keys().next().cloned() {
                Some(k) if chance(1, 2) => {
                    d.remove(&k);
                    x.mut_value().remove(&k);
                }
                _ => {
                    if reg.kind(17) == Some(Kind::Str) {
                        let s = MTag { id: 17, kind: Kind::Str, val: Val::Str("x".into()) };
                        let was = x.insert("key1", build_plain(&s)).is_some();
                        let had = d.insert("key1".into(), s).is_some();
                        ensure!(was == had, "residue", "insert() into a reused dictionary reports a previous entry: {}, expected {}", was, had);
                    }
                }
            }
        }
        Val::StrDict(d) => {
            let x = tag_downcast_mut::<ILStrDictTag>(t).expect("type");
            match d.keys().next().cloned() {
                Some(k) if chance(1, 2) => {
                    d.remove(&k);
                    x.mut_value().remove(&k);
                }
                _ => {
                    let was = x.insert("key1", "v");
                    let had = d.insert("key1".into(), "v".into());
                    ensure!(was == had, "residue", "insert() into a reused dictionary returns {:?}, expected {:?}", was, had);
                }
            }
        }
        _ => (),
    }
    Ok(())
}

/// The object is indistinguishable from a fresh tag holding `m`.
fn settled(o: &Obj, m: &MTag, reg: &Reg, what: &str) -> Res<()> {
    let got = match extract_kind(o.real.as_ref(), o.kind, reg) {
        Ok(g) => g,
        Err(e) => return core::viol("wrong-type", format!("{}: {}; history {}", what, e, o.history)),
    };
    core::eval(1);
    ensure!(
        got == *m,
        "residue",
        "{}: the tag holds {} instead of {}; history {}",
        what,
        got.short(),
        m.short(),
        o.history
    );
    ensure!(o.real.id() == m.id, "residue", "{}: id {} became {}", what, m.id, o.real.id());
    let want = enc(m);
    let b = fresh_bytes(o.real.as_ref(), what)?;
    ensure!(
        b == want,
        "residue",
        "{}: serializes differently from a fresh tag: {}; history {}",
        what,
        first_diff(&b, &want),
        o.history
    );
    ensure!(
        o.real.size() == want.len() as u64 && o.real.value_size() == enc_value(m).len() as u64,
        "residue",
        "{}: size {} value size {} for {} bytes",
        what,
        o.real.size(),
        o.real.value_size(),
        want.len()
    );
    Ok(())
}

/// After a failure the content is unspecified, but the tag is still a tag: it serializes consistently.
fn usable(o: &Obj, reg: &Reg) -> Res<()> {
    core::eval(1);
    ensure!(o.real.id() == o.id, "residue", "a failed attempt changed the id {} to {}", o.id, o.real.id());
    let b = fresh_bytes(o.real.as_ref(), "serializing after a failed attempt")?;
    ensure!(
        b.len() as u64 == o.real.size(),
        "residue",
        "after a failed attempt the tag reports {} bytes and serializes {}; history {}",
        o.real.size(),
        b.len(),
        o.history
    );
    // and what it serializes is what it shows
    if let Ok(m) = extract_kind(o.real.as_ref(), o.kind, reg) {
        let want = enc(&m);
        // an optional part of a user payload may be in between
        if o.kind != Kind::Payload && !holds_payload(&m) {
            ensure!(
                b == want,
                "residue",
                "after a failed attempt the tag shows {} but serializes {}",
                m.short(),
                hex(&b)
            );
        }
    }
    Ok(())
}

fn holds_payload(m: &MTag) -> bool {
    m.kind == Kind::Payload || m.children().iter().any(|c| holds_payload(c))
}

fn gen_obj_tag(reg: &Reg, id: u64, kind: Kind) -> MTag {
    let mut g = Gen::sized(reg, &[30, 30, 120, 120, 800, 3000], 3);
    let d = choose(4) as usize;
    g.of(id, kind, d)
}

const CONTAINERS: [Kind; 9] = [
    Kind::Dict,
    Kind::StrDict,
    Kind::Seq,
    Kind::TagArr,
    Kind::IntArr,
    Kind::Str,
    Kind::BigDec,
    Kind::Payload,
    Kind::Raw,
];

fn gen_obj(reg: &Reg) -> Obj {
    let (id, kind) = match weighted(&[8, 4, 3]) {
        0 => {
            let k = pick(&CONTAINERS);
            match std_id(k) {
                Some(i) => (i, k),
                None => (pick(&ID_POOL).max(32), k),
            }
        }
        1 => pick(&STD),
        // a type of its own under an id the factory knows otherwise or not at all
        _ => (pick(&ID_POOL).max(32), pick(&WITH_ID)),
    };
    if chance(1, 2) {
        let m = gen_obj_tag(reg, id, kind);
        Obj { real: build(&m), kind, id, history: format!("holding {}", m.short()), state: Some(m), failures: 0 }
    } else {
        let real = blank(id, kind);
        let state = extract_kind(real.as_ref(), kind, reg).ok();
        Obj { real, kind, id, state, failures: 0, history: "new".into() }
    }
}

/// What the bytes say to the object: its own type reads the value, the registrations decide about
/// everything inside.
fn predict(b: &[u8], o: &Obj, reg: &Reg) -> (Result<MTag, PErr>, bool, u64) {
    let mut p = Parser::new(reg);
    if real_id(b) != Some(o.id) {
        return (Err(PErr::Corrupt), false, 0);
    }
    if o.id <= 15 {
        let r = p.tag(b).map(|x| x.0);
        return (r, p.dup, p.claimed);
    }
    let (a, h) = match (int_len(b), header_len(b, o.id)) {
        (Some(a), Some(h)) if h <= b.len() => (a, h),
        _ => return (Err(PErr::Eof), false, 0),
    };
    let n = match real_id(&b[a..h]) {
        Some(n) if n <= MAX_TAG => n as usize,
        _ => return (Err(PErr::TooLarge), false, 0),
    };
    if b.len() - h < n {
        return (Err(PErr::Eof), false, n as u64);
    }
    let r = p.value(o.id, o.kind, &b[h..h + n]);
    (r, p.dup, p.claimed.max(n as u64))
}

fn int_len(b: &[u8]) -> Option<usize> {
    let h = *b.first()?;
    Some(if h < 0xF8 { 1 } else { (h - 0xF8) as usize + 2 })
}

fn header_len(b: &[u8], id: u64) -> Option<usize> {
    let a = int_len(b)?;
    if id <= 15 {
        return Some(a);
    }
    let c = int_len(b.get(a..)?)?;
    Some(a + c)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Factory,
    Direct,
}

fn attempt(o: &mut Obj, f: &dyn ILTagFactory, b: &[u8], value_at: usize, how: How, src: SrcKind, plan: Plan) -> Result<(), ErrorKind> {
    let real = o.real.as_mut();
    with_source(src, b, plan, |s, _| match how {
        How::Factory => f.deserialize_into(s.r(), real),
        How::Direct => {
            let mut h = vec![0u8; value_at];
            s.r().read_all(&mut h)?;
            let n = b.len() - value_at;
            let mut l = LimitedReader::new(s.r(), n);
            real.deserialize_value(f, n, &mut l)?;
            Ok(())
        }
    })
}

fn reuse() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let mut o = gen_obj(&reg);
    let steps = 2 + choose(if chance(1, 50) { 150 } else { 12 });
    for _ in 0..steps {
        let t = gen_obj_tag(&reg, o.id, o.kind);
        let mut e = Enc { wide: chance(1, 8), ..Default::default() };
        e.tag(&t);
        let bytes = e.out.clone();
        let value_at = header_len(&bytes, o.id).unwrap_or(0);
        let how = if chance(1, 5) { How::Direct } else { How::Factory };
        match weighted(&[10, 6, 4, 4, 3, 3, 2, 2]) {
            0 => {
                // whole and healthy: the state of a fresh decode
                let src = pick_src();
                tr!("decode {} from {:?} {:?}", t.short(), src, how);
                o.history += &format!("; decode {}", t.short());
                match attempt(&mut o, &f, &bytes, value_at, how, src, Plan::benign(bytes.len())) {
                    Ok(()) => settled(&o, &t, &reg, "decode into a used tag")?,
                    Err(e) => {
                        return core::viol(
                            "residue",
                            format!("decode into a used tag: {:?} for {}; history {}", e, t.short(), o.history),
                        )
                    }
                }
                // the same through a fresh object
                if reg.kind(o.id) == Some(o.kind) && chance(1, 3) {
                    let fresh = decode_slice(&f, &bytes, "fresh decode")?;
                    ensure!(
                        util::iltag_are_equal(fresh.as_ref(), o.real.as_ref()),
                        "residue",
                        "a reused tag differs from a fresh decode of the same bytes: {}",
                        t.short()
                    );
                    core::eval(1);
                }
                if o.failures > 0 || o.state.as_ref() != Some(&t) {
                    core::nontrivial();
                }
                if o.failures > 0 {
                    core::probe("decoded after failures");
                }
                o.state = Some(t);
            }
            1 => {
                // cut or failing somewhere
                if bytes.len() < 2 {
                    continue;
                }
                let marks: Vec<usize> = e.fields.iter().map(|f| f.off).collect();
                let at = (cut_pos(bytes.len(), &marks) as usize).min(bytes.len() - 1);
                fail_at(&mut o, &f, &reg, &bytes, value_at, how, at)?;
            }
            2 => {
                // at every position in turn
                if bytes.len() > 400 {
                    continue;
                }
                tr!("failing at each of {} positions", bytes.len());
                for at in 0..bytes.len() {
                    fail_at(&mut o, &f, &reg, &bytes, value_at, how, at)?;
                }
            }
            3 => {
                // damaged
                let mut b = bytes.clone();
                damage(&mut b, &e, &[3, 1]);
                let (want, dup, claimed) = predict(&b, &o, &reg);
                if claimed > 1_000_000 || dup {
                    continue;
                }
                if header_len(&b, o.id).is_none() {
                    continue;
                }
                let mut r = ByteArrayReader::new(&b);
                tr!("damaged {} -> {:?}", hex(&b), want.as_ref().map(|m| m.short()));
                o.history += "; damaged";
                let res = f.deserialize_into(&mut r, o.real.as_mut());
                match (&res, want) {
                    (Ok(()), Ok(m)) if m.id == o.id => {
                        settled(&o, &m, &reg, "decode of damaged bytes that still are an encoding")?;
                        o.state = Some(m);
                    }
                    (Ok(()), _) => {
                        return core::viol("accepted-garbage", format!("decode into a used tag accepts {}; history {}", hex(&b), o.history))
                    }
                    (Err(e), Ok(m)) if m.id == o.id => {
                        return core::viol("residue", format!("decode into a used tag: {:?} for {}; history {}", e, m.short(), o.history))
                    }
                    (Err(e), _) => {
                        let mismatch = matches!(e, ErrorKind::UnexpectedTagType) && real_id(&b) != Some(o.id);
                        failed(&mut o, &reg, mismatch)?;
                    }
                }
            }
            4 => {
                // another id
                let mut other = vec![];
                let oid = loop {
                    let x = if chance(1, 2) { choose(33) } else { pick(&ID_POOL) };
                    if x != o.id {
                        break x;
                    }
                };
                ilint_put(&mut other, oid);
                if chance(3, 4) {
                    ilint_put(&mut other, choose(10));
                    other.extend(gen_bytes(choose(12) as usize));
                }
                tr!("other id {}", oid);
                core::fault("id mismatch");
                let src = pick_src();
                let plan = Plan::benign(other.len());
                let r = attempt(&mut o, &f, &other, 0, How::Factory, src, plan);
                core::eval(1);
                o.history += &format!("; offered id {}", oid);
                ensure!(
                    matches!(r, Err(ErrorKind::UnexpectedTagType)),
                    "id-mismatch-not-refused",
                    "decoding id {} into a tag with id {}: {:?}",
                    oid,
                    o.id,
                    r
                );
                failed(&mut o, &reg, true)?;
            }
            5 => {
                tr!("setters: {}", t.short());
                o.history += &format!("; set to {}", t.short());
                assign(o.real.as_mut(), &t);
                settled(&o, &t, &reg, "content replaced through the setters")?;
                o.state = Some(t);
            }
            6 => {
                if let Some(mut m) = o.state.take() {
                    tweak(o.real.as_mut(), &mut m, &reg)?;
                    o.history += "; tweaked";
                    settled(&o, &m, &reg, "content changed through the setters")?;
                    o.state = Some(m);
                }
            }
            _ => {
                // a user callback inside fails or the user gives up half way
                let spec = Spec::draw();
                let give_up = chance(1, 3);
                let mut plan = Plan::benign(bytes.len());
                let mut ctl = Ctl::default();
                if give_up {
                    plan.abandon_at = Some(1 + choose(12));
                } else {
                    ctl.on = true;
                    ctl.fail = Some((choose(4), choose(3) as u8, Some(spec)));
                }
                let src = pick(&SRC_FAULTY);
                tr!("callback failure or abandoned: {:?} {:?}", ctl.fail, plan.abandon_at);
                probe::set(ctl);
                let r = catch_unwind(AssertUnwindSafe(|| attempt(&mut o, &f, &bytes, value_at, how, src, plan)));
                let c = probe::get();
                probe::off();
                match r {
                    Ok(Ok(())) => {
                        ensure!(!c.fired, "error-swallowed", "decoding succeeded although a payload failed");
                        settled(&o, &t, &reg, "decode into a used tag")?;
                        o.state = Some(t);
                    }
                    Ok(Err(e)) => {
                        ensure!(c.fired, "residue", "decode into a used tag: {:?}; history {}", e, o.history);
                        o.history += "; callback failed";
                        failed(&mut o, &reg, false)?;
                    }
                    Err(p) if p.downcast_ref::<Abandon>().is_some() => {
                        o.history += "; abandoned";
                        core::probe("decode-into abandoned by unwinding");
                        o.failures += 1;
                        o.state = None;
                        usable(&o, &reg)?;
                    }
                    Err(p) => resume_unwind(p),
                }
            }
        }
        if o.history.len() > 600 {
            o.history = format!("...{}", &o.history[o.history.char_indices().rev().nth(300).map(|x| x.0).unwrap_or(0)..]);
        }
    }
    sample(|| format!("tag {} {:?}: {}", o.id, o.kind, o.history));
    Ok(())
}

fn real_id(b: &[u8]) -> Option<u64> {
    let n = int_len(b)?;
    if b.len() < n {
        return None;
    }
    if n == 1 {
        return Some(b[0] as u64);
    }
    let mut v = 0u64;
    for x in &b[1..n] {
        v = v << 8 | *x as u64;
    }
    v.checked_add(0xF8)
}

fn fail_at(o: &mut Obj, f: &dyn ILTagFactory, reg: &Reg, bytes: &[u8], value_at: usize, how: How, at: usize) -> Res<()> {
    let at = if how == How::Direct { at.max(value_at) } else { at };
    if at >= bytes.len() {
        return Ok(());
    }
    let r = if chance(1, 2) && how == How::Factory {
        core::fault("stream truncated");
        let src = pick_src();
        let plan = Plan::benign(at);
        attempt(o, f, &bytes[..at], value_at, how, src, plan)
    } else {
        let mut plan = Plan::benign(bytes.len());
        plan.fail = Some(Fail {
            at: at as u64,
            how: if chance(1, 3) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) },
            sticky: chance(1, 2),
            partial: chance(1, 2),
            id: 11,
        });
        attempt(o, f, bytes, value_at, how, pick(&SRC_FAULTY), plan)
    };
    if o.history.len() < 500 {
        o.history += &format!("; failed at {} of {}", at, bytes.len());
    }
    core::eval(1);
    ensure!(r.is_err(), "tag-from-nothing", "decoding succeeded although the source failed at {} of {}", at, hex(bytes));
    failed(o, reg, false)
}

fn failed(o: &mut Obj, reg: &Reg, untouched: bool) -> Res<()> {
    o.failures += 1;
    if untouched {
        if let Some(m) = &o.state {
            settled(o, m, reg, "after an attempt that was refused")?;
        }
    } else {
        o.state = None;
        usable(o, reg)?;
    }
    Ok(())
}

/// Memory writers after refused writes.
fn writers() -> Res<()> {
    let reg = gen_reg();
    let mut w = VecWriter::new();
    let mut buf = vec![0xEEu8; 4096];
    let rounds = 2 + choose(8);
    for i in 0..rounds {
        let mut g = Gen::new(&reg, pick(&[30, 200, 1500]), 3);
        let t = g.tag();
        let bytes = enc(&t);
        let real = build_plain(&t);
        core::nontrivial();
        if chance(1, 3) {
            // refused while locked
            let (len, off) = (w.as_slice().len(), w.get_offset());
            w.set_read_only(true);
            core::fault("read-only writer");
            let r = real.serialize(&mut w);
            core::eval(1);
            ensure!(r.is_err(), "refused-write-succeeded", "serializing into a locked VecWriter: Ok");
            ensure!(
                w.as_slice().len() == len && w.get_offset() == off,
                "residue",
                "a refused serialization moved the VecWriter from {} to {}",
                off,
                w.get_offset()
            );
            w.set_read_only(false);
        }
        if chance(1, 2) {
            // start over on the same writer
            let _ = w.set_offset(0);
        }
        let off = w.get_offset();
        let r = real.serialize(&mut w);
        core::eval(1);
        ensure!(r.is_ok(), "residue", "VecWriter in round {}: {:?}", i, r);
        ensure!(
            w.get_offset() == off + bytes.len() && w.as_slice()[off..off + bytes.len()] == bytes[..],
            "residue",
            "VecWriter in round {}: {}",
            i,
            first_diff(&w.as_slice()[off..], &bytes)
        );
        // a small array, over and over
        if bytes.len() <= 2048 {
            let cap = if chance(1, 2) && !bytes.is_empty() { choose(bytes.len() as u64) as usize } else { bytes.len() + choose(4) as usize };
            buf.iter_mut().for_each(|b| *b = 0xEE);
            let mut a = ByteArrayWriter::new(&mut buf[..cap]);
            let r = real.serialize(&mut a);
            let n = a.get_offset();
            let ok = r.is_ok();
            core::eval(1);
            ensure!(ok == (cap >= bytes.len()), "residue", "serializing {} bytes into an array of {}: {:?}", bytes.len(), cap, r);
            // the same writer still works
            let _ = a.set_offset(0);
            let s = MTag { id: 3, kind: Kind::U8, val: Val::Fixed(vec![9]) };
            let r2 = if !ok && cap >= 2 { build_plain(&s).serialize(&mut a) } else { Ok(()) };
            let n2 = a.get_offset();
            if !ok {
                core::fault("array full");
                ensure!(n <= cap && buf[2.min(n)..n] == bytes[2.min(n)..n], "residue", "the array holds {} bytes that are no prefix", n);
                if cap >= 2 {
                    ensure!(r2.is_ok() && n2 == 2 && buf[..2] == [3, 9], "residue", "array writer after a refused write: {:?}", r2);
                }
            }
        }
    }
    Ok(())
}

/// A factory after many failed decodes.
fn factory() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let tags = gen_tags(&reg, 3);
    let rounds = 1 + choose(4);
    for _ in 0..rounds {
        let t = pick(&tags);
        let mut e = Enc::default();
        e.tag(&t);
        let n = if chance(1, 8) { 300 } else { choose(20) };
        for _ in 0..n {
            let mut b = e.out.clone();
            if chance(1, 2) {
                let at = choose(b.len() as u64) as usize;
                b.truncate(at);
                core::fault("stream truncated");
            } else {
                damage(&mut b, &e, &[0]);
                let mut p = Parser::new(&reg);
                let _ = p.tag(&b);
                if p.claimed > 100_000 {
                    continue;
                }
            }
            let mut r = ByteArrayReader::new(&b);
            let _ = f.deserialize(&mut r);
        }
        for t in &tags {
            let x = decode_slice(&f, &enc(t), "decode through a factory that saw failures")?;
            same(x.as_ref(), t, &reg, "decode through a factory that saw failures")?;
        }
    }
    Ok(())
}

/// Buffers handed to the decoding helpers again and again.
fn buffers() -> Res<()> {
    use il2_iltags::tags::serialization::{deserialize_bytes_into_vec, ByteArrayDeserializer};
    let mut text = String::from("before");
    let mut v: Vec<u8> = vec![1, 2, 3];
    let mut v2: Vec<u8> = vec![9; 30];
    for _ in 0..2 + choose(8) {
        let s = gen_string(choose(if chance(1, 4) { 300 } else { 12 }) as usize);
        let raw = gen_bytes(choose(40) as usize);
        let mut b = vec![17];
        ilint_put(&mut b, s.len() as u64);
        b.extend_from_slice(s.as_bytes());
        let split = b.len();
        b.extend_from_slice(&raw);
        b.extend_from_slice(&raw);
        let at = if chance(1, 2) { choose(b.len() as u64) as usize } else { b.len() };
        if at < b.len() {
            core::fault("stream truncated");
        }
        core::nontrivial();
        let src = pick_src();
        tr!("{:?} and {} bytes twice, cut at {} of {}", s, raw.len(), at, b.len());
        with_source(src, &b[..at], Plan::benign(at), |r, _| {
            let mut r = DynR(r.r());
            let x = explicit::deserialize_string_tag_from_value_into(&mut r, &mut text);
            core::eval(1);
            ensure!(x.is_ok() == (at >= split), "residue", "string tag of {} bytes cut at {}: {:?}", split, at, x);
            if x.is_err() {
                return Ok(());
            }
            ensure!(text == s, "residue", "a reused string holds {:?} instead of {:?}", text, s);
            let x = deserialize_bytes_into_vec(raw.len(), &mut r, &mut v);
            ensure!(x.is_ok() == (at >= split + raw.len()), "residue", "{} bytes into a reused buffer: {:?}", raw.len(), x);
            if x.is_err() {
                return Ok(());
            }
            ensure!(v == raw, "residue", "a reused buffer holds {} instead of {}", hex(&v), hex(&raw));
            let x = r.deserialize_bytes_into_vec(raw.len(), &mut v2);
            ensure!(x.is_ok() == (at == b.len()), "residue", "{} bytes into a reused buffer: {:?}", raw.len(), x);
            if x.is_ok() {
                ensure!(v2 == raw, "residue", "a reused buffer holds {} instead of {}", hex(&v2), hex(&raw));
            }
            Ok(())
        })?;
    }
    Ok(())
}
