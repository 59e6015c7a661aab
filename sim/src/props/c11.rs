//! Memory taken while decoding is bounded whatever sizes the input claims.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::mem::{self, Usage};
use crate::tr;
use il2_iltags::io as lio;
use il2_iltags::io::{ReadReader, Reader};
use il2_iltags::tags::{tag_downcast_ref, ErrorKind, ILRawTag};

pub const RULE: &str = "one evaluation judges the memory taken by, and the verdict of, one decoding attempt against what the input claims and what it delivers; a history is non-trivial if sizes or counts were inflated, or the input was damaged or cut";

/// Memory in use may exceed the maximum tag size by this much per byte received, plus a constant.
const MULTIPLE: u64 = 256;
const SLACK: u64 = 2 << 20;
/// Refusing a size takes no memory to speak of.
const REFUSAL: u64 = 256 << 10;

pub fn run() -> Res<()> {
    match weighted(&[10, 8, 6, 4, if core::thorough() { 1 } else { 0 }]) {
        0 => too_large(),
        1 => claimed(),
        2 => damaged(),
        3 => at_max(),
        _ => {
            if chance(1, 60) {
                delivered()
            } else {
                at_max()
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Ok,
    TooLarge,
    Other,
}

fn verdict(e: &ErrorKind) -> Verdict {
    match e {
        ErrorKind::TagTooLarge => Verdict::TooLarge,
        _ => Verdict::Other,
    }
}

/// Decodes and drops everything inside the measurement.
fn decode(f: &dyn ILTagFactory, r: &mut dyn Reader, into: Option<&mut Box<dyn ILTag>>) -> (Verdict, Usage) {
    mem::measure(|| match into {
        None => match f.deserialize(r) {
            Ok(_) => Verdict::Ok,
            Err(e) => verdict(&e),
        },
        Some(t) => match f.deserialize_into(r, t.as_mut()) {
            Ok(()) => Verdict::Ok,
            Err(e) => verdict(&e),
        },
    })
}

fn bounded(u: &Usage, received: usize, what: &str) -> Res<()> {
    core::eval(1);
    let max = MAX_TAG + MULTIPLE * received as u64 + SLACK;
    ensure!(
        u.peak <= max as i64 && u.largest <= max,
        "memory-unbounded",
        "{}: {} bytes in use at the peak (largest request {}) for {} bytes received",
        what,
        u.peak,
        u.largest,
        received
    );
    Ok(())
}

fn released(u: &Usage, what: &str) -> Res<()> {
    core::eval(1);
    ensure!(u.live <= 0, "memory-kept", "{}: {} bytes still held afterwards (peak {})", what, u.live, u.peak);
    Ok(())
}

/// Containers around a hostile tag. Their own claims are true, or as large as they may be.
struct Path {
    front: Vec<u8>,
    desc: String,
}

fn leaf_junk() -> Vec<u8> {
    gen_bytes(pick(&[0u64, 0, 1, 2, 9, 20, 300]) as usize)
}

/// Wraps `inner` (whose missing part is claimed to be `missing` bytes) into containers.
fn wrap(inner: Vec<u8>, missing: u64, reg: &Reg) -> Path {
    let mut body = inner;
    let mut missing = missing;
    let mut desc = String::new();
    let depth = weighted(&[4, 4, 2, 1, 1]);
    let custom: Vec<(u64, Kind)> = reg
        .customs()
        .into_iter()
        .filter(|(_, k)| matches!(k, Kind::Seq | Kind::TagArr | Kind::Dict | Kind::Payload))
        .collect();
    for _ in 0..depth {
        let (id, kind) = if !custom.is_empty() && chance(1, 4) {
            pick(&custom)
        } else {
            pick(&[(22, Kind::Seq), (21, Kind::TagArr), (30, Kind::Dict)])
        };
        let mut v = Vec::new();
        match kind {
            Kind::Seq => {
                for _ in 0..choose(3) {
                    v.extend_from_slice(&[3, 7]);
                }
            }
            Kind::TagArr => {
                let n = choose(3);
                ilint_put(&mut v, n + 1 + choose(3));
                for _ in 0..n {
                    v.extend_from_slice(&[3, 7]);
                }
            }
            Kind::Dict => {
                let n = choose(3);
                ilint_put(&mut v, n + 1 + choose(3));
                for i in 0..n {
                    v.extend_from_slice(&[17, 1, b'0' + i as u8, 3, 7]);
                }
                v.extend_from_slice(&[17, 2, b'k', b'k']);
            }
            _ => v.extend_from_slice(&[0, 0, 0, 1, 2, 3, 1]),
        }
        v.extend_from_slice(&body);
        let real = (v.len() as u64).saturating_add(missing);
        let size = if real > MAX_TAG || chance(1, 2) { MAX_TAG } else { real };
        let mut h = Vec::new();
        ilint_put(&mut h, id);
        ilint_put(&mut h, size);
        h.extend_from_slice(&v);
        missing = missing.max(size.saturating_sub(v.len() as u64));
        body = h;
        desc = format!("{:?}({}) > {}", kind, size, desc);
    }
    Path { front: body, desc }
}

/// A header that claims too much, in any place a header may stand.
fn too_large() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let size = match choose(6) {
        0 => MAX_TAG + 1,
        1 => MAX_TAG + 1 + choose(1000),
        2 => (1 << 30) + choose(3) - 1,
        3 => (1 << 32) + choose(3) - 1,
        4 => (1 << 63) + choose(3) - 1,
        _ => u64::MAX - choose(3),
    };
    core::fault("size beyond the maximum");
    let mut inner = Vec::new();
    let place = weighted(&[6, 2, 2, 2]);
    let known: Vec<u64> = reg.map.keys().filter(|i| **i > 15).cloned().collect();
    let id = if chance(1, 4) && !reg.strict { gen_u64().max(32) } else { pick(&known) };
    match place {
        0 => {
            ilint_put(&mut inner, id);
            ilint_put(&mut inner, size);
        }
        1 => {
            // dictionary key
            let mut v = vec![2u8];
            v.extend_from_slice(&[17, 1, b'a', 0]);
            v.push(17);
            ilint_put(&mut v, size);
            ilint_put(&mut inner, 30);
            ilint_put(&mut inner, if chance(1, 2) { MAX_TAG } else { v.len() as u64 + 100 });
            inner.extend_from_slice(&v);
        }
        k => {
            // string dictionary, key or value
            let mut v = vec![1u8];
            if k == 3 {
                v.extend_from_slice(&[17, 1, b'a']);
            }
            v.push(17);
            ilint_put(&mut v, size);
            ilint_put(&mut inner, 31);
            ilint_put(&mut inner, if chance(1, 2) { MAX_TAG } else { v.len() as u64 + 100 });
            inner.extend_from_slice(&v);
        }
    }
    inner.extend(leaf_junk());
    let p = wrap(inner, size.min(1000), &reg);
    let b = p.front;
    sample(|| format!("{}id {} claims {} bytes, place {}: {}", p.desc, id, size, place, hex(&b)));
    tr!("{}id {} size {} place {}: {}", p.desc, id, size, place, hex(&b));
    let times = 1 + choose(3);
    let src = pick_src();
    for _ in 0..times {
        with_source(src, &b, Plan::benign(b.len()), |s, _| {
            let (v, u) = decode(&f, s.r(), None);
            core::eval(1);
            ensure!(
                v == Verdict::TooLarge,
                "too-large-not-refused",
                "{}id {} with size {} gave {:?} instead of TagTooLarge",
                p.desc,
                id,
                size,
                v
            );
            ensure!(
                u.peak <= (REFUSAL + MULTIPLE * b.len() as u64) as i64,
                "memory-before-refusal",
                "{}id {} with size {}: {} bytes taken before the refusal",
                p.desc,
                id,
                size,
                u.peak
            );
            released(&u, "refused tag")
        })?;
    }
    // the other entry points
    let (v, u) = mem::measure(|| match f.from_bytes(&b) {
        Ok(_) => Verdict::Ok,
        Err(e) => verdict(&e),
    });
    core::eval(1);
    ensure!(v == Verdict::TooLarge, "too-large-not-refused", "from_bytes(): {:?} for {}", v, hex(&b));
    released(&u, "from_bytes()")?;
    if let Some((id, k)) = super::c04::header(&b, &reg) {
        let mut t = blank(id, k);
        let mut r = lio::array::ByteArrayReader::new(&b);
        let (v, u) = decode(&f, &mut r, Some(&mut t));
        core::eval(1);
        ensure!(v == Verdict::TooLarge, "too-large-not-refused", "deserialize_into(): {:?} for {}", v, hex(&b));
        ensure!(u.peak <= (REFUSAL + MULTIPLE * b.len() as u64) as i64, "memory-before-refusal", "deserialize_into(): {} bytes", u.peak);
    }
    Ok(())
}

const HUGE: [u64; 18] = [
    100,
    5_000,
    70_000,
    1 << 20,
    1 << 24,
    (1 << 25) - 1,
    1 << 26,
    1 << 27,
    1 << 28,
    (1 << 29) - 10,
    (1 << 29) - 1,
    1 << 29,
    1 << 30,
    1 << 32,
    1 << 40,
    1 << 60,
    1 << 63,
    u64::MAX,
];

/// Counts and sizes within the limit that nothing backs.
fn claimed() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let mut inner = Vec::new();
    let kinds: Vec<(u64, Kind)> = reg
        .map
        .iter()
        .filter(|(i, k)| **i > 15 && matches!(k, Kind::IntArr | Kind::TagArr | Kind::Oid | Kind::Dict | Kind::StrDict | Kind::Seq | Kind::Payload))
        .map(|(i, k)| (*i, *k))
        .collect();
    let (id, kind) = pick(&kinds);
    let count = match choose(4) {
        0 => gen_u64(),
        _ => pick(&HUGE),
    };
    // payloads read what is left of their size into a buffer
    let cap = if kind == Kind::Payload { 1 << 20 } else { MAX_TAG };
    let size = match choose(4) {
        0 => cap,
        1 => cap - choose(100),
        2 => count.saturating_add(20).min(cap),
        _ => pick(&HUGE).min(cap),
    };
    core::fault("claimed count or size");
    ilint_put(&mut inner, id);
    ilint_put(&mut inner, size);
    let front = inner.len();
    match kind {
        Kind::Seq | Kind::Payload => (),
        _ => ilint_put(&mut inner, count),
    }
    // some real entries first
    let n = pick(&[0u64, 0, 1, 3, 40]);
    for i in 0..n {
        match kind {
            Kind::IntArr | Kind::Oid => inner.push(i as u8),
            Kind::Seq | Kind::TagArr => inner.extend_from_slice(&[3, 7]),
            Kind::Dict => inner.extend_from_slice(&[17, 1, b'0' + i as u8, 3, 7]),
            Kind::StrDict => inner.extend_from_slice(&[17, 1, b'0' + i as u8, 17, 1, b'v']),
            _ => inner.push(i as u8),
        }
    }
    // a nested claim
    if chance(1, 3) && matches!(kind, Kind::Seq | Kind::TagArr) {
        for _ in 0..1 + choose(6) {
            let c = pick(&HUGE);
            let mut v = Vec::new();
            ilint_put(&mut v, c);
            ilint_put(&mut inner, pick(&[20u64, 21, 25]));
            ilint_put(&mut inner, MAX_TAG.min(c.saturating_add(9)));
            inner.extend_from_slice(&v);
        }
    }
    let missing = size.saturating_sub((inner.len() - front) as u64);
    let p = wrap(inner, missing, &reg);
    let b = p.front;
    sample(|| format!("{}{:?} id {} claims {} entries in {} bytes: {}", p.desc, kind, id, count, size, hex(&b)));
    tr!("{}{:?} id {} claims {} entries in {} bytes: {}", p.desc, kind, id, count, size, hex(&b));
    attempts(&f, &reg, &b, &format!("{}{:?} claiming {} entries in {} bytes", p.desc, kind, count, size))
}

/// Several attempts on the same input through different doors.
fn attempts(f: &dyn ILTagFactory, reg: &Reg, b: &[u8], what: &str) -> Res<()> {
    for _ in 0..1 + choose(3) {
        let src = pick_src();
        let mut plan = Plan::benign(b.len());
        let mut src = src;
        if chance(1, 4) {
            plan.fail = Some(Fail {
                at: choose(b.len() as u64 + 1),
                how: FailHow::Err(pick(&HARD_KINDS)),
                sticky: true,
                partial: true,
                id: 11,
            });
            src = pick(&SRC_FAULTY);
        }
        with_source(src, b, plan, |s, _| {
            let (v, u) = decode(f, s.r(), None);
            core::ev(0xb1, v as u64, u.count);
            bounded(&u, b.len(), what)?;
            released(&u, what)
        })?;
    }
    // many failures in a row do not add up
    if chance(1, 8) && b.len() < 400 {
        let (_, u) = mem::measure(|| {
            for _ in 0..25 {
                let _ = f.from_bytes(b);
            }
        });
        core::probe("25 attempts in a row");
        bounded(&u, b.len(), "25 attempts in a row")?;
        released(&u, "25 attempts in a row")?;
    }
    if let Some((id, k)) = super::c04::header(b, reg) {
        let (_, u) = mem::measure(|| {
            let mut t = blank(id, k);
            for _ in 0..2 {
                let mut r = lio::array::ByteArrayReader::new(b);
                let _ = f.deserialize_into(&mut r, t.as_mut());
            }
        });
        bounded(&u, b.len(), "deserialize_into()")?;
        released(&u, "deserialize_into() and drop")?;
    }
    Ok(())
}

/// Ordinary data, damaged and cut.
fn damaged() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let tags = gen_tags(&reg, 2);
    let t = &tags[0];
    let mut e = Enc::default();
    e.tag(t);
    let other = e.out.clone();
    for _ in 0..1 + choose(4) {
        let mut b = e.out.clone();
        for _ in 0..choose(3) {
            super::c04::damage(&mut b, &e, &other);
        }
        if chance(1, 2) {
            b.truncate(choose(b.len() as u64 + 1) as usize);
            core::fault("stream truncated");
        }
        let mut p = Parser::new(&reg);
        let _ = p.tag(&b);
        if p.claimed > 2_000_000 && !chance(1, 40) {
            continue;
        }
        sample(|| format!("{} damaged to {}", hex(&e.out), hex(&b)));
        tr!("{}", hex(&b));
        attempts(&f, &reg, &b, "damaged data")?;
    }
    Ok(())
}

/// Sizes up to the maximum are not refused for their size.
fn at_max() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let size = MAX_TAG - pick(&[0u64, 0, 0, 1, 2, 1000]);
    // these would be filled with zeros first, which takes real time and memory
    let heavy = chance(1, 150);
    let light = |k: &Kind| {
        !matches!(
            k,
            Kind::Bytes | Kind::Str | Kind::BigInt | Kind::BigDec | Kind::Raw | Kind::Payload
        )
    };
    let kinds: Vec<(u64, Kind)> = reg.map.iter().filter(|(i, k)| **i > 15 && (heavy || light(k))).map(|(i, k)| (*i, *k)).collect();
    let (id, kind) = pick(&kinds);
    core::fault("size at the maximum");
    let mut inner = Vec::new();
    ilint_put(&mut inner, id);
    ilint_put(&mut inner, size);
    let k = if light(&kind) { choose(3) } else { choose(20) };
    match kind {
        Kind::Seq => {
            for _ in 0..k {
                inner.extend_from_slice(&[3, 7]);
            }
        }
        Kind::IntArr | Kind::Oid | Kind::TagArr | Kind::Dict | Kind::StrDict => ilint_put(&mut inner, 5),
        Kind::Payload => inner.extend_from_slice(&[0, 0, 0, 1, 2, 3, 0]),
        _ => inner.extend(gen_bytes(k as usize)),
    }
    let p = wrap(inner, size, &reg);
    let b = p.front;
    sample(|| format!("{}{:?} id {} claims {} bytes: {}", p.desc, kind, id, size, hex(&b)));
    tr!("{}{:?} id {} claims {} bytes: {}", p.desc, kind, id, size, hex(&b));
    let src = if light(&kind) { pick_src() } else { pick(&[SrcKind::Array, SrcKind::ReadReader, SrcKind::Seekable]) };
    with_source(src, &b, Plan::benign(b.len()), |s, _| {
        let (v, u) = decode(&f, s.r(), None);
        core::eval(1);
        core::ev(0xb3, v as u64, u.count);
        ensure!(
            v == Verdict::Other,
            "refused-at-maximum",
            "{}{:?} id {} with size {} gave {:?}; it is not too large, only cut short",
            p.desc,
            kind,
            id,
            size,
            v
        );
        bounded(&u, b.len(), "tag of the maximum size, cut short")?;
        released(&u, "tag of the maximum size, cut short")
    })
}

/// An endless stream of zeros behind a header.
struct Zeros {
    head: Vec<u8>,
    pos: u64,
    len: u64,
}

impl std::io::Read for Zeros {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.len - self.pos) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() {
            let p = self.pos as usize + i;
            if p >= self.head.len() {
                break;
            }
            *x = self.head[p];
        }
        let from = self.head.len().saturating_sub(self.pos as usize).min(n);
        b[from..n].fill(0);
        self.pos += n as u64;
        Ok(n)
    }
}

/// A tag of exactly the maximum size, all of it delivered.
fn delivered() -> Res<()> {
    let f = il2_iltags::tags::standard::ILStandardTagFactory::new(false);
    let id = pick(&[16u64, 17, 18, 40]);
    let mut head = Vec::new();
    ilint_put(&mut head, id);
    ilint_put(&mut head, MAX_TAG);
    let len = head.len() as u64 + MAX_TAG;
    core::fault("maximum size delivered");
    sample(|| format!("id {} with {} bytes delivered", id, MAX_TAG));
    let mut z = Zeros { head, pos: 0, len };
    let mut r = ReadReader::new(&mut z);
    let (n, u) = mem::measure(|| match f.deserialize(&mut r) {
        Ok(t) => {
            if id == 40 {
                tag_downcast_ref::<ILRawTag>(t.as_ref()).map(|t| t.value().len() as u64).unwrap_or(0)
            } else {
                t.value_size()
            }
        }
        Err(e) => {
            let _p = mem::pause();
            core::pending("refused-at-maximum", format!("id {} with {} bytes: {:?}", id, MAX_TAG, e));
            0
        }
    });
    core::take_pending()?;
    core::eval(1);
    ensure!(n == MAX_TAG, "wrong-value", "decoded {} bytes instead of {}", n, MAX_TAG);
    // received as much as it keeps
    bounded(&u, MAX_TAG as usize / MULTIPLE as usize, "tag of the maximum size")?;
    released(&u, "tag of the maximum size")
}
