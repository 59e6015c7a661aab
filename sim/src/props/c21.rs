//! A tag always reflects its current value.
use super::*;
use super::c13::assign;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::tr;
use il2_iltags::io::array::{ByteArrayReader, VecWriter};
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{tag_downcast_mut, tag_downcast_ref, util, ILRawTag};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const RULE: &str = "one evaluation asks a tag one question (value, id, a size, its bytes, equality, a copy) and compares the answer with a model of its current value; a history is non-trivial if a tag that had answered before was changed and asked again";

struct Holding {
    real: Box<dyn ILTag>,
    m: MTag,
    asked: bool,
    changed: bool,
}

struct World {
    reg: Reg,
    f: ILStandardTagFactory,
    tags: Vec<Holding>,
    history: String,
}

fn note(w: &mut World, s: String) {
    tr!("{}", s);
    if w.history.len() > 500 {
        let at = w.history.char_indices().rev().nth(300).map(|x| x.0).unwrap_or(0);
        w.history = format!("...{}", &w.history[at..]);
    }
    w.history.push_str("; ");
    w.history.push_str(&s);
}

// ---------------------------------------------------------------------------------------------
// Asking

/// One question about one tag, wherever it sits.
fn ask(t: &dyn ILTag, m: &MTag, q: u64, reg: &Reg, what: &str) -> Res<()> {
    core::eval(1);
    match q {
        0 => ensure!(t.size() == enc(m).len() as u64, "stale-size", "{}: size() is {} for {} bytes of {}", what, t.size(), enc(m).len(), m.short()),
        1 => ensure!(
            t.value_size() == enc_value(m).len() as u64,
            "stale-size",
            "{}: value_size() is {} for {} bytes of {}",
            what,
            t.value_size(),
            enc_value(m).len(),
            m.short()
        ),
        2 => {
            let b = fresh_bytes(t, what)?;
            let want = enc(m);
            ensure!(b == want, "stale-bytes", "{}: to_bytes() of {}: {}", what, m.short(), first_diff(&b, &want));
        }
        3 => {
            let mut w = VecWriter::new();
            let r = t.serialize_value(&mut w);
            let want = enc_value(m);
            ensure!(
                r.is_ok() && w.as_slice() == &want[..],
                "stale-bytes",
                "{}: serialize_value() of {}: {:?}, {}",
                what,
                m.short(),
                r,
                first_diff(w.as_slice(), &want)
            );
        }
        4 => match extract_kind(t, m.kind, reg) {
            Ok(g) => ensure!(g == *m, "stale-value", "{}: the accessors show {} instead of {}", what, g.short(), m.short()),
            Err(e) => return core::viol("stale-value", format!("{}: {} (expected {})", what, e, m.short())),
        },
        _ => ensure!(t.id() == m.id, "changed-id", "{}: id {} became {}", what, m.id, t.id()),
    }
    Ok(())
}

fn ask_all(h: &mut Holding, reg: &Reg, what: &str) -> Res<()> {
    let mut q = [0u64, 1, 2, 3, 4, 5];
    shuffle(&mut q);
    for q in q.iter() {
        ask(h.real.as_ref(), &h.m, *q, reg, what)?;
    }
    if h.changed && h.asked {
        core::nontrivial();
    }
    h.asked = true;
    h.changed = false;
    Ok(())
}

fn ask_some(t: &dyn ILTag, m: &MTag, reg: &Reg, what: &str) -> Res<()> {
    for _ in 0..choose(3) {
        ask(t, m, choose(6), reg, what)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Changing

macro_rules! to {
    ($ty:ty, $t:expr) => {
        tag_downcast_mut::<$ty>($t).expect("type")
    };
}

fn edit_vec<T: Clone + PartialEq>(r: &mut Vec<T>, m: &mut Vec<T>, mut fresh: impl FnMut() -> T) -> &'static str {
    macro_rules! both {
        ($x:ident, $e:expr) => {{
            {
                let $x = &mut *r;
                $e
            }
            let $x = &mut *m;
            $e
        }};
    }
    let n = m.len();
    match choose(14) {
        0 => {
            let v = fresh();
            both!(x, x.push(v.clone()));
            "push"
        }
        1 => {
            both!(x, {
                x.pop();
            });
            "pop"
        }
        2 | 3 | 4 if n > 0 => {
            let (i, v) = (choose(n as u64) as usize, fresh());
            both!(x, x[i] = v.clone());
            "replace one"
        }
        5 => {
            let (i, v) = (choose(n as u64 + 1) as usize, fresh());
            both!(x, x.insert(i, v.clone()));
            "insert"
        }
        6 if n > 0 => {
            let i = choose(n as u64) as usize;
            both!(x, {
                x.remove(i);
            });
            "remove"
        }
        7 => {
            let i = choose(n as u64 + 1) as usize;
            both!(x, x.truncate(i));
            "truncate"
        }
        8 => {
            let (k, v) = (if chance(1, 3) { pick(&LEN_POOL).min(600) } else { choose(30) as usize }, fresh());
            both!(x, x.resize(k, v.clone()));
            "resize"
        }
        9 => {
            both!(x, x.reverse());
            "reverse"
        }
        10 => {
            both!(x, x.clear());
            "clear"
        }
        11 => {
            let v: Vec<T> = (0..choose(9)).map(|_| fresh()).collect();
            *r = v.clone();
            *m = v;
            "another vector"
        }
        12 if n > 1 => {
            let (i, j) = (choose(n as u64) as usize, choose(n as u64) as usize);
            both!(x, x.swap(i, j));
            "swap two"
        }
        _ => {
            if chance(1, 2) {
                r.reserve(choose(100) as usize);
            } else {
                r.shrink_to_fit();
            }
            "capacity only"
        }
    }
}

fn edit_str(r: &mut String, m: &mut String) -> &'static str {
    let cuts: Vec<usize> = m.char_indices().map(|x| x.0).chain(std::iter::once(m.len())).collect();
    let at = pick(&cuts);
    macro_rules! both {
        ($x:ident, $e:expr) => {{
            {
                let $x = &mut *r;
                $e
            }
            let $x = &mut *m;
            $e
        }};
    }
    match choose(8) {
        0 => {
            let s = gen_string(choose(if chance(1, 4) { 300 } else { 6 }) as usize);
            both!(x, x.push_str(&s));
            "push_str"
        }
        1 => {
            both!(x, {
                x.pop();
            });
            "pop"
        }
        2 => {
            both!(x, x.truncate(at));
            "truncate"
        }
        3 => {
            both!(x, x.insert_str(at, "ß"));
            "insert_str"
        }
        4 if at < m.len() => {
            let c = m[at..].chars().next().unwrap();
            let same = match c.len_utf8() {
                1 => 'q',
                2 => 'é',
                3 => '€',
                _ => '😀',
            };
            both!(x, x.replace_range(at..at + c.len_utf8(), &same.to_string()));
            "replace in place"
        }
        5 => {
            both!(x, x.clear());
            "clear"
        }
        6 => {
            let s = gen_string(choose(9) as usize);
            *r = s.clone();
            *m = s;
            "another string"
        }
        _ => {
            r.shrink_to_fit();
            "capacity only"
        }
    }
}

/// A value close to the current one: a prefix, an extension, one part exchanged.
pub(super) fn near(m: &MTag, reg: &Reg) -> MTag {
    fn vec<T: Clone>(v: &mut Vec<T>, mut fresh: impl FnMut() -> T) {
        let n = v.len() as u64;
        match choose(5) {
            0 | 1 if n > 0 => v.truncate(choose(n) as usize),
            2 if n > 0 => v[choose(n) as usize] = fresh(),
            3 if n > 1 => v.swap(0, n as usize - 1),
            _ => {
                for _ in 0..1 + choose(3) {
                    v.push(fresh());
                }
            }
        }
    }
    let mut m = m.clone();
    match &mut m.val {
        Val::Bool(b) => *b = !*b,
        Val::Fixed(b) => {
            let i = choose(b.len() as u64) as usize;
            b[i] ^= 1 << choose(8);
        }
        Val::ILInt(v) => *v = v.wrapping_add(choose(3)).wrapping_sub(1),
        Val::SILInt(v) => *v = v.wrapping_neg(),
        Val::Bytes(b) => vec(b, || choose(256) as u8),
        Val::Str(s) => {
            let mut c: Vec<char> = s.chars().collect();
            vec(&mut c, || pick(&['a', 'é', '€', '😀', ' ', '\0']));
            *s = c.into_iter().collect();
        }
        Val::BigDec(s, b) => {
            if chance(1, 2) {
                *s = s.wrapping_neg();
            } else {
                vec(b, || choose(256) as u8)
            }
        }
        Val::Ints(v) => vec(v, gen_u64),
        Val::Tags(v) => vec(v, || small(reg)),
        Val::Range(s, c) => match choose(3) {
            0 => *s = !*s,
            1 => *c = !*c,
            _ => *s = u64::MAX - choose(3),
        },
        Val::Version(v) => {
            let i = choose(4) as usize;
            v[i] = match choose(4) {
                0 => v[i].wrapping_neg(),
                1 => v[i].wrapping_add(1),
                2 => v[i].wrapping_sub(1),
                _ => gen_i64() as i32,
            };
        }
        Val::Dict(d) => {
            let k = some_key(d.keys().collect());
            if d.remove(&k).is_none() || chance(1, 2) {
                d.insert(k, small(reg));
            }
        }
        Val::StrDict(d) => {
            let k = some_key(d.keys().collect());
            let old = d.remove(&k);
            if old.is_none() || chance(2, 3) {
                d.insert(k, format!("{}x", old.unwrap_or_default()));
            }
        }
        Val::Payload(p) => match choose(3) {
            0 => p.a = !p.a,
            1 => p.b = gen_u64(),
            _ => vec(&mut p.rest, || choose(256) as u8),
        },
        Val::Null => (),
    }
    m
}

fn small(reg: &Reg) -> MTag {
    let mut g = Gen::new(reg, pick(&[8, 20, 60]), 2);
    g.tag()
}

fn edit_list(r: &mut Vec<Box<dyn ILTag>>, m: &mut Vec<MTag>, reg: &Reg, out: &mut Vec<(Box<dyn ILTag>, MTag)>) -> &'static str {
    let n = m.len();
    match choose(11) {
        0 => {
            let v = small(reg);
            r.push(build(&v));
            m.push(v);
            "push"
        }
        1 => {
            if let (Some(a), Some(b)) = (r.pop(), m.pop()) {
                out.push((a, b));
            }
            "pop"
        }
        2 | 3 if n > 0 => {
            let (i, v) = (choose(n as u64) as usize, small(reg));
            let a = std::mem::replace(&mut r[i], build(&v));
            let b = std::mem::replace(&mut m[i], v);
            out.push((a, b));
            "replace one"
        }
        4 => {
            let (i, v) = (choose(n as u64 + 1) as usize, small(reg));
            r.insert(i, build(&v));
            m.insert(i, v);
            "insert"
        }
        5 if n > 0 => {
            let i = choose(n as u64) as usize;
            out.push((r.remove(i), m.remove(i)));
            "remove"
        }
        6 if n > 0 => {
            let i = choose(n as u64) as usize;
            out.push((r.swap_remove(i), m.swap_remove(i)));
            "swap_remove"
        }
        7 => {
            let i = choose(n as u64 + 1) as usize;
            r.truncate(i);
            m.truncate(i);
            "truncate"
        }
        8 if n > 1 => {
            let (i, j) = (choose(n as u64) as usize, choose(n as u64) as usize);
            r.swap(i, j);
            m.swap(i, j);
            "swap two"
        }
        9 => {
            r.reverse();
            m.reverse();
            "reverse"
        }
        _ => {
            r.clear();
            m.clear();
            "clear"
        }
    }
}

fn some_key(keys: Vec<&String>) -> String {
    if !keys.is_empty() && chance(2, 3) {
        return pick(&keys).clone();
    }
    match choose(3) {
        0 => String::new(),
        1 => format!("k{}", choose(5)),
        _ => gen_string(choose(5) as usize),
    }
}

/// One change through the tag's own methods or its mutable parts.
fn edit(t: &mut dyn ILTag, m: &mut MTag, reg: &Reg, out: &mut Vec<(Box<dyn ILTag>, MTag)>) -> Res<&'static str> {
    if chance(1, 5) || matches!(m.val, Val::Null | Val::Bool(_) | Val::Fixed(_) | Val::ILInt(_) | Val::SILInt(_)) {
        let v = if chance(1, 2) {
            near(m, reg)
        } else {
            let mut g = Gen::new(reg, pick(&[8, 20, 60, 300]), 2);
            g.of(m.id, m.kind, 1)
        };
        if v.val != m.val || chance(1, 4) {
            assign(t, &v);
            *m = v;
            return Ok("set");
        }
    }
    let kind = m.kind;
    Ok(match &mut m.val {
        Val::Bytes(b) => {
            let r = match kind {
                Kind::Bytes => to!(ILByteArrayTag, t).mut_value(),
                Kind::BigInt => to!(ILBigIntTag, t).mut_value(),
                _ => to!(ILRawTag, t).mut_value(),
            };
            edit_vec(r, b, || choose(256) as u8)
        }
        Val::Str(s) => {
            let x = to!(ILStringTag, t);
            if chance(1, 6) {
                *s = gen_string(choose(if chance(1, 4) { 300 } else { 12 }) as usize);
                x.set_value(s);
                "set_value"
            } else {
                edit_str(x.mut_value(), s)
            }
        }
        Val::BigDec(s, b) => {
            let x = to!(ILBigDecTag, t);
            if chance(1, 3) {
                *s = gen_i64() as i32;
                x.set_scale(*s);
                "set_scale"
            } else {
                edit_vec(x.mut_value(), b, || choose(256) as u8)
            }
        }
        Val::Ints(v) => {
            let set = chance(1, 6);
            if set {
                *v = (0..choose(9)).map(|_| gen_u64()).collect();
            }
            match kind {
                Kind::IntArr if set => to!(ILILIntArrayTag, t).set_value(v),
                Kind::IntArr => return Ok(edit_vec(to!(ILILIntArrayTag, t).mut_value(), v, gen_u64)),
                _ if set => to!(ILOIDTag, t).set_value(v),
                _ => return Ok(edit_vec(to!(ILOIDTag, t).mut_value(), v, gen_u64)),
            }
            "set_value"
        }
        Val::Tags(v) => {
            let r = match kind {
                Kind::Seq => to!(ILTagSeqTag, t).mut_value(),
                _ => to!(ILTagArrayTag, t).mut_value(),
            };
            edit_list(r, v, reg, out)
        }
        Val::Range(s, c) => {
            let x = to!(ILRangeTag, t);
            match choose(3) {
                0 => {
                    *s = gen_u64();
                    x.set_start(*s);
                    "set_start"
                }
                1 => {
                    *c = choose(65536) as u16;
                    x.set_count(*c);
                    "set_count"
                }
                _ => {
                    *s = gen_u64();
                    *c = choose(65536) as u16;
                    x.set_value(*s, *c);
                    "set_value"
                }
            }
        }
        Val::Version(v) => {
            let x = to!(ILVersionTag, t);
            let n = gen_i64() as i32;
            match choose(6) {
                0 => {
                    v[0] = n;
                    x.set_major(n);
                    "set_major"
                }
                1 => {
                    v[1] = n;
                    x.set_minor(n);
                    "set_minor"
                }
                2 => {
                    v[2] = n;
                    x.set_revision(n);
                    "set_revision"
                }
                3 => {
                    v[3] = n;
                    x.set_build(n);
                    "set_build"
                }
                4 => {
                    *v = [n, gen_i64() as i32, n ^ 1, gen_i64() as i32];
                    x.set_value_from_slice(v);
                    "set_value_from_slice"
                }
                _ => {
                    *v = [gen_i64() as i32, n, gen_i64() as i32, !n];
                    x.set_value(v[0], v[1], v[2], v[3]);
                    "set_value"
                }
            }
        }
        Val::Dict(d) => {
            let x = to!(ILDictTag, t);
            let k = some_key(d.keys().collect());
            let (what, a, b) = match choose(7) {
                0 | 1 => {
                    let v = small(reg);
                    ("insert", x.insert(&k, build(&v)), d.insert(k, v))
                }
                2 => {
                    let v = small(reg);
                    ("mut_value().insert", x.mut_value().insert(k.clone(), build(&v)), d.insert(k, v))
                }
                3 => ("mut_value().remove", x.mut_value().remove(&k), d.remove(&k)),
                4 => {
                    if let (Some(r), Some(b)) = (x.mut_value().get_mut(&k), d.get_mut(&k)) {
                        let v = small(reg);
                        *r = build(&v);
                        *b = v;
                    }
                    ("replaced through get_mut", None, None)
                }
                5 => {
                    // rename a key
                    let to = some_key(d.keys().collect());
                    let a = x.mut_value().remove(&k).and_then(|v| x.mut_value().insert(to.clone(), v));
                    let b = d.remove(&k).and_then(|v| d.insert(to, v));
                    ("rename", a, b)
                }
                _ => {
                    x.mut_value().retain(|q, _| q.len() % 2 == k.len() % 2);
                    d.retain(|q, _| q.len() % 2 == k.len() % 2);
                    ("retain", None, None)
                }
            };
            core::eval(1);
            match (a, b) {
                (Some(a), Some(b)) => out.push((a, b)),
                (None, None) => (),
                (a, _) => return core::viol("stale-value", format!("dictionary {}: previous entry {}, expected otherwise", what, a.is_some())),
            }
            what
        }
        Val::StrDict(d) => {
            let x = to!(ILStrDictTag, t);
            let k = some_key(d.keys().collect());
            let v = gen_string(choose(if chance(1, 6) { 300 } else { 6 }) as usize);
            let (what, a, b) = match choose(6) {
                0 | 1 => ("insert", x.insert(&k, &v), d.insert(k, v)),
                2 => ("mut_value().insert", x.mut_value().insert(k.clone(), v.clone()), d.insert(k, v)),
                3 => ("mut_value().remove", x.mut_value().remove(&k), d.remove(&k)),
                4 => {
                    if let (Some(r), Some(b)) = (x.mut_value().get_mut(&k), d.get_mut(&k)) {
                        edit_str(r, b);
                    }
                    ("edited through get_mut", None, None)
                }
                _ => {
                    x.mut_value().retain(|q, _| q.len() % 2 == k.len() % 2);
                    d.retain(|q, _| q.len() % 2 == k.len() % 2);
                    ("retain", None, None)
                }
            };
            core::eval(1);
            ensure!(a == b, "stale-value", "dictionary {}: previous entry {:?}, expected {:?}", what, a, b);
            what
        }
        Val::Payload(p) => {
            let x = to!(RecTag, t);
            // both ways to the payload are the same payload
            let q: &mut RecPayload = if chance(1, 2) { x.mut_payload() } else { &mut *x };
            match choose(6) {
                0 => {
                    p.a = gen_u64() as u32;
                    q.a = p.a;
                    "payload a"
                }
                1 => {
                    p.b = gen_u64();
                    q.b = p.b;
                    "payload b"
                }
                2 => {
                    p.c = gen_i64();
                    q.c = p.c;
                    "payload c"
                }
                3 => edit_vec(&mut q.rest, &mut p.rest, || choose(256) as u8),
                4 => {
                    let v = small(reg);
                    p.flag |= 1;
                    q.flag = p.flag;
                    if let (Some(a), Some(b)) = (q.tag.replace(build(&v)), p.tag.replace(Box::new(v))) {
                        out.push((a, *b));
                    }
                    "payload tag"
                }
                _ => {
                    p.flag &= !1;
                    q.flag = p.flag;
                    if let (Some(a), Some(b)) = (q.tag.take(), p.tag.take()) {
                        out.push((a, *b));
                    }
                    "payload tag taken"
                }
            }
        }
        _ => "nothing",
    })
}

/// Goes down to some part of the tag, asking on the way, and changes it there.
fn change(t: &mut dyn ILTag, m: &mut MTag, f: &dyn ILTagFactory, reg: &Reg, out: &mut Vec<(Box<dyn ILTag>, MTag)>, path: &mut String) -> Res<()> {
    if chance(1, 3) {
        ask_some(t, m, reg, "on the way to a part")?;
    }
    if !m.children().is_empty() && chance(2, 3) {
        let kind = m.kind;
        match &mut m.val {
            Val::Tags(v) => {
                let i = choose(v.len() as u64) as usize;
                path.push_str(&format!("[{}]", i));
                let r = match kind {
                    Kind::Seq => to!(ILTagSeqTag, t).mut_value(),
                    _ => to!(ILTagArrayTag, t).mut_value(),
                };
                ensure!(r.len() == v.len(), "stale-value", "a container holds {} elements instead of {}", r.len(), v.len());
                change(r[i].as_mut(), &mut v[i], f, reg, out, path)?;
            }
            Val::Dict(d) => {
                let k = pick(&d.keys().collect::<Vec<_>>()).clone();
                path.push_str(&format!("[{:?}]", k));
                match (to!(ILDictTag, t).mut_value().get_mut(&k), d.get_mut(&k)) {
                    (Some(r), Some(v)) => change(r.as_mut(), v, f, reg, out, path)?,
                    _ => return core::viol("stale-value", format!("a dictionary lost its entry {:?}", k)),
                }
            }
            Val::Payload(p) => {
                path.push_str(".tag");
                match (&mut to!(RecTag, t).mut_payload().tag, &mut p.tag) {
                    (Some(r), Some(v)) => change(r.as_mut(), v, f, reg, out, path)?,
                    _ => return core::viol("stale-value", "a payload lost its tag".into()),
                }
            }
            _ => (),
        }
    } else if chance(1, 8) {
        decode_into(t, m, f, reg, path)?;
    } else {
        let what = edit(t, m, reg, out)?;
        path.push(' ');
        path.push_str(what);
    }
    if chance(1, 3) {
        ask_some(t, m, reg, "after a change inside")?;
    }
    Ok(())
}

/// Reuses the tag as a decoding target; after a failure it is set anew.
fn decode_into(t: &mut dyn ILTag, m: &mut MTag, f: &dyn ILTagFactory, reg: &Reg, path: &mut String) -> Res<()> {
    let mut g = Gen::new(reg, pick(&[8, 60, 300]), 2);
    let v = g.of(m.id, m.kind, 1);
    let b = enc(&v);
    if chance(1, 2) {
        path.push_str(" failed decode, then set");
        core::fault("stream truncated");
        let at = choose(b.len() as u64) as usize;
        let r = f.deserialize_into(&mut ByteArrayReader::new(&b[..at]), t);
        core::eval(1);
        ensure!(r.is_err(), "stale-value", "decoded {} from {} of {} bytes", v.short(), at, b.len());
        // whatever it holds now, it says how much
        let left = fresh_bytes(t, "after a failed decode")?.len() as u64;
        ensure!(left == t.size(), "stale-size", "after a failed decode size() is {} for {} bytes", t.size(), left);
        assign(t, &v);
        *m = v;
    } else {
        path.push_str(" decode");
        let r = with_source(pick_src(), &b, Plan::benign(b.len()), |s, _| f.deserialize_into(s.r(), t));
        core::eval(1);
        ensure!(r.is_ok(), "stale-value", "decoding {} into a tag in use: {:?}", v.short(), r);
        *m = v;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Histories

/// Exchanges the contents of two containers of the same kind.
fn exchange(a: &mut Holding, b: &mut Holding) -> bool {
    macro_rules! swap {
        ($ty:ty) => {
            std::mem::swap(to!($ty, a.real.as_mut()).mut_value(), to!($ty, b.real.as_mut()).mut_value())
        };
    }
    if a.m.kind != b.m.kind {
        return false;
    }
    match a.m.kind {
        Kind::Bytes => swap!(ILByteArrayTag),
        Kind::BigInt => swap!(ILBigIntTag),
        Kind::Raw => swap!(ILRawTag),
        Kind::Str => swap!(ILStringTag),
        Kind::IntArr => swap!(ILILIntArrayTag),
        Kind::Oid => swap!(ILOIDTag),
        Kind::Seq => swap!(ILTagSeqTag),
        Kind::TagArr => swap!(ILTagArrayTag),
        Kind::Dict => swap!(ILDictTag),
        Kind::StrDict => swap!(ILStrDictTag),
        Kind::Payload => std::mem::swap(to!(RecTag, a.real.as_mut()).mut_payload(), to!(RecTag, b.real.as_mut()).mut_payload()),
        _ => return false,
    }
    std::mem::swap(&mut a.m.val, &mut b.m.val);
    true
}

/// Exchanges two whole tags of one concrete type.
fn exchange_whole(a: &mut Holding, b: &mut Holding) -> bool {
    macro_rules! swap {
        ($($k:ident $ty:ty),*) => {
            match a.m.kind {
                $(Kind::$k => std::mem::swap(to!($ty, a.real.as_mut()), to!($ty, b.real.as_mut())),)*
                _ => return false,
            }
        };
    }
    if a.m.kind != b.m.kind {
        return false;
    }
    swap!(Bytes ILByteArrayTag, Str ILStringTag, BigDec ILBigDecTag, Range ILRangeTag, Version ILVersionTag, Seq ILTagSeqTag,
        TagArr ILTagArrayTag, Dict ILDictTag, StrDict ILStrDictTag, IntArr ILILIntArrayTag, Payload RecTag, U64 ILUInt64Tag);
    std::mem::swap(&mut a.m, &mut b.m);
    true
}

fn weight(m: &MTag) -> usize {
    enc(m).len()
}

pub fn run() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let mut w = World { reg, f, tags: vec![], history: String::new() };
    for _ in 0..1 + choose(3) {
        let mut g = Gen::sized(&w.reg, &[30, 60, 120, 400, 1200], 4);
        let m = if chance(1, 2) {
            let (id, k) = pick(&[(30, Kind::Dict), (31, Kind::StrDict), (21, Kind::TagArr), (22, Kind::Seq), (20, Kind::IntArr), (17, Kind::Str)]);
            g.of(id, k, 3)
        } else {
            g.tag()
        };
        let real = build(&m);
        w.history.push_str(&format!("; holding {}", m.short()));
        w.tags.push(Holding { real, m, asked: false, changed: false });
    }
    let steps = 3 + choose(if chance(1, 40) { 200 } else { 25 });
    for _ in 0..steps {
        step(&mut w)?;
    }
    for i in 0..w.tags.len() {
        let h = w.history.clone();
        let World { reg, tags, .. } = &mut w;
        ask_all(&mut tags[i], reg, &format!("at the end of {}", h))?;
    }
    core::gauge("tags held", w.tags.len() as u64);
    sample(|| format!("{} tags: {}", w.tags.len(), w.history));
    Ok(())
}

fn step(w: &mut World) -> Res<()> {
    let i = choose(w.tags.len() as u64) as usize;
    let op = weighted(&[14, 3, 3, 3, 2, 2, 2, 3, 2]);
    core::ev(0xA1, i as u64, op as u64);
    match op {
        0 => {
            // a change somewhere in it
            let mut out = vec![];
            let mut path = format!("tag {}", i);
            {
                let World { reg, f, tags, .. } = w;
                let h = &mut tags[i];
                if weight(&h.m) > 200_000 {
                    let v = small(reg);
                    *h = Holding { real: build(&v), m: v, asked: false, changed: false };
                }
                change(h.real.as_mut(), &mut h.m, f, reg, &mut out, &mut path)?;
                h.changed = true;
            }
            note(w, path);
            for (real, m) in out {
                // what was taken out is still itself
                if w.tags.len() < 6 && chance(1, 2) {
                    w.tags.push(Holding { real, m, asked: true, changed: true });
                } else {
                    ask(real.as_ref(), &m, choose(6), &w.reg, "a part taken out of a tag")?;
                }
            }
            let what = w.history.clone();
            let World { reg, tags, .. } = w;
            if chance(3, 4) {
                ask_all(&mut tags[i], reg, &what)?;
            } else {
                ask_some(tags[i].real.as_ref(), &tags[i].m, reg, &what)?;
            }
            if chance(1, 4) {
                for h in tags.iter_mut() {
                    ask_all(h, reg, &format!("a bystander of {}", what))?;
                }
            }
        }
        1 => {
            // serialization to a sink that fails or is given up on changes nothing
            let World { reg, tags, .. } = w;
            let h = &mut tags[i];
            let n = weight(&h.m);
            let mut plan = Plan::benign(n);
            let give_up = chance(1, 3);
            if give_up {
                plan.abandon_at = Some(1 + choose(8));
            } else {
                plan.fail = Some(Fail { at: choose(n as u64), how: if chance(1, 3) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) }, sticky: true, partial: chance(1, 2), id: 21 });
            }
            let snk = pick(&[SnkKind::WriteWriter, SnkKind::Seekable, SnkKind::User]);
            let real = h.real.as_ref();
            let r = catch_unwind(AssertUnwindSafe(|| with_sink(snk, n, plan, |s, _| real.serialize(s)).0));
            core::eval(1);
            match r {
                Ok(r) => ensure!(give_up || r.is_err(), "stale-bytes", "serializing to a failing {:?}: {:?}", snk, r),
                Err(p) if p.downcast_ref::<Abandon>().is_some() => core::probe("serialization abandoned by unwinding"),
                Err(p) => resume_unwind(p),
            }
            ask_all(h, reg, "after a serialization that failed")?;
            note(w, format!("tag {} failed to serialize", i));
        }
        2 => {
            // a copy, from now on on its own
            let reg = w.reg.clone();
            let std = chance(1, 4);
            let by = if std { Reg::std(false) } else { reg };
            let b = enc(&w.tags[i].m);
            let want = Parser::new(&by).tag(&b);
            let r = if std { util::iltag_clone(w.tags[i].real.as_ref()) } else { util::iltag_clone_with_factory(&w.f, w.tags[i].real.as_ref()) };
            core::eval(1);
            match (r, want) {
                (Ok(c), Ok((m, _))) => {
                    note(w, format!("tag {} copied", i));
                    same(c.as_ref(), &m, &by, "a copy")?;
                    // a copy made by other registrations is looked at but not kept
                    if w.tags.len() < 6 && m == w.tags[i].m {
                        w.tags.push(Holding { real: c, m, asked: true, changed: false });
                    }
                }
                (Err(_), Err(_)) => (),
                (r, want) => {
                    return core::viol("stale-bytes", format!("copying {}: {:?}, expected {:?}", w.tags[i].m.short(), r.map(|x| x.id()), want.map(|x| x.0.short())))
                }
            }
        }
        3 => {
            // equality follows the current values
            if chance(1, 2) {
                let World { reg, tags, .. } = w;
                let h = &mut tags[i];
                let mut twin = build(&h.m);
                core::eval(2);
                ensure!(util::iltag_are_equal(h.real.as_ref(), twin.as_ref()), "stale-equality", "{} differs from a tag of the same value", h.m.short());
                let v = near(&h.m, reg);
                let want = enc(&v) == enc(&h.m);
                if chance(1, 2) {
                    assign(twin.as_mut(), &v);
                    let got = util::iltag_are_equal(h.real.as_ref(), twin.as_ref());
                    ensure!(got == want, "stale-equality", "{} and a changed copy {} compare {}", h.m.short(), v.short(), got);
                } else {
                    let old = std::mem::replace(&mut h.m, v);
                    assign(h.real.as_mut(), &h.m);
                    h.changed = true;
                    let got = util::iltag_are_equal(h.real.as_ref(), twin.as_ref());
                    ensure!(got == want, "stale-equality", "{} changed to {} and a copy from before compare {}", old.short(), h.m.short(), got);
                    ask_all(h, reg, "set to a value close to the one before")?;
                }
                return Ok(());
            }
            let j = choose(w.tags.len() as u64) as usize;
            let (a, b) = (&w.tags[i], &w.tags[j]);
            let got = util::iltag_are_equal(a.real.as_ref(), b.real.as_ref());
            let want = enc(&a.m) == enc(&b.m);
            core::eval(1);
            ensure!(got == want, "stale-equality", "{} and {} compare {}; history {}", a.m.short(), b.m.short(), got, w.history);
        }
        4 => {
            let j = choose(w.tags.len() as u64) as usize;
            if i != j {
                let (lo, hi) = (i.min(j), i.max(j));
                let (x, y) = w.tags.split_at_mut(hi);
                let ok = if chance(1, 3) { exchange_whole(&mut x[lo], &mut y[0]) } else { exchange(&mut x[lo], &mut y[0]) };
                if ok {
                    core::probe("contents exchanged");
                    note(w, format!("tags {} and {} exchanged", i, j));
                    let what = w.history.clone();
                    let World { reg, tags, .. } = w;
                    for k in [i, j].iter() {
                        tags[*k].changed = true;
                        ask_all(&mut tags[*k], reg, &what)?;
                    }
                }
            }
        }
        5 => {
            // one tag becomes part of another
            let j = choose(w.tags.len() as u64) as usize;
            let deep = w.tags[j].m.depth() + w.tags[i].m.depth();
            let heavy = weight(&w.tags[i].m) + weight(&w.tags[j].m) > 200_000;
            if i == j || deep > 40 || heavy || !matches!(w.tags[j].m.kind, Kind::Seq | Kind::TagArr | Kind::Dict) {
                return Ok(());
            }
            let mut part = w.tags.remove(i);
            let j = if j > i { j - 1 } else { j };
            let World { reg, tags, .. } = w;
            ask_some(part.real.as_ref(), &part.m, reg, "before it becomes a part")?;
            let h = &mut tags[j];
            part.changed = true;
            match (&mut h.m.val, h.m.kind) {
                (Val::Tags(v), Kind::Seq) => {
                    to!(ILTagSeqTag, h.real.as_mut()).mut_value().push(part.real);
                    v.push(part.m);
                }
                (Val::Tags(v), _) => {
                    to!(ILTagArrayTag, h.real.as_mut()).mut_value().push(part.real);
                    v.push(part.m);
                }
                (Val::Dict(d), _) => {
                    let k = some_key(d.keys().collect());
                    to!(ILDictTag, h.real.as_mut()).insert(&k, part.real);
                    d.insert(k, part.m);
                }
                _ => (),
            }
            h.changed = true;
            core::probe("tag moved into a container");
            ask_all(h, reg, "after another tag became a part of it")?;
            note(w, format!("tag {} became a part", i));
        }
        6 => {
            // decoded from storage, then changed like any other
            let b = enc(&w.tags[i].m);
            let src = pick_src();
            let f = &w.f;
            let r = with_source(src, &b, Plan::benign(b.len()), |s, _| f.deserialize(s.r()));
            let want = Parser::new(&w.reg).tag(&b);
            core::eval(1);
            match (r, want) {
                (Ok(c), Ok((m, _))) => {
                    same(c.as_ref(), &m, &w.reg, "decoded from storage")?;
                    note(w, format!("tag {} decoded again", i));
                    w.tags[i] = Holding { real: c, m, asked: true, changed: false };
                }
                (Err(_), Err(_)) => (),
                (r, want) => {
                    return core::viol("stale-bytes", format!("decoding {}: {:?}, expected {:?}", w.tags[i].m.short(), r.map(|x| x.id()), want.map(|x| x.0.short())))
                }
            }
        }
        7 => {
            let World { reg, tags, history, .. } = w;
            let h = &mut tags[i];
            if let Val::Payload(p) = &h.m.val {
                let x = tag_downcast_ref::<RecTag>(h.real.as_ref()).expect("type");
                ensure!(x.a == p.a && x.payload().b == p.b, "stale-value", "the payload shows other fields than it was given");
            }
            ask_some(h.real.as_ref(), &h.m, reg, history)?;
            h.asked = true;
        }
        _ => {
            if w.tags.len() > 1 {
                let h = w.tags.remove(i);
                ask(h.real.as_ref(), &h.m, 2, &w.reg, "before it is dropped")?;
            }
        }
    }
    Ok(())
}
