//! Serialized bytes do not depend on hashing, history or process.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted, Prng};
use crate::sched::{self, run_tasks, Job};
use crate::tr;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

pub const RULE: &str = "one evaluation compares the bytes a simulated node produced with the reference encoding, or a comparison/clone verdict with equality of the model values; a history is non-trivial if nodes with different hash seeds exchanged tags under an interleaved schedule or a dictionary went through overwrites and removals";

/// Keys whose order depends on how they are compared.
fn key(i: usize) -> String {
    match choose(9) {
        0 => format!("{}", i),
        1 => format!("{}{}", pick(&["a", "A", "b", "B", "aa", "ab", "a\0", "a ", ""]), choose(3)),
        2 => pick(&["\u{ffff}", "\u{10000}", "\u{e000}", "\u{d7ff}", "\u{7f}", "\u{80}", "é", "e\u{301}", "\0", "~", "ﬀ", "ß", "ss"]).to_string(),
        3 => format!("{}{}", "p".repeat(choose(20) as usize), pick(&["", "\0", "a", "\u{ffff}", "\u{10ffff}"])),
        4 => gen_string(choose(6) as usize),
        5 => format!("k{:04}", choose(50)),
        6 => format!("{}", pick(&[9u64, 10, 99, 100, 1, 11, 2])),
        7 => "z".repeat(choose(4) as usize),
        _ => format!("{}\u{10000}{}", pick(&["", "a", "\u{ffff}"]), choose(4)),
    }
}

fn dict(g: &mut Gen, depth: usize) -> MTag {
    let n = match weighted(&[6, 4, 2, 1]) {
        0 => choose(5),
        1 => choose(12),
        2 => choose(40),
        _ => 200 + choose(200),
    } as usize;
    let strs = chance(1, 3);
    let mut m = BTreeMap::new();
    let mut s = BTreeMap::new();
    for i in 0..n {
        let k = if n > 60 { format!("{:x}", (i as u64 * 2654435761) & 0xFFFFF) } else { key(i) };
        if strs {
            s.insert(k, if n > 60 { "v".into() } else { gen_string(choose(6) as usize) });
        } else {
            let v = if n > 60 {
                MTag {
                    id: 0,
                    kind: Kind::Null,
                    val: Val::Null,
                }
            } else {
                value(g, depth)
            };
            m.insert(k, v);
        }
    }
    if strs {
        MTag {
            id: 31,
            kind: Kind::StrDict,
            val: Val::StrDict(s),
        }
    } else {
        MTag {
            id: 30,
            kind: Kind::Dict,
            val: Val::Dict(m),
        }
    }
}

fn enc_raw(id: u64, v: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    ilint_put(&mut out, id);
    ilint_put(&mut out, v.len() as u64);
    out.extend_from_slice(v);
    out
}

fn value(g: &mut Gen, depth: usize) -> MTag {
    if depth > 0 && chance(1, 4) {
        return match choose(3) {
            0 => dict(g, depth - 1),
            k => {
                let n = choose(3);
                MTag {
                    id: 20 + k,
                    kind: if k == 1 { Kind::TagArr } else { Kind::Seq },
                    val: Val::Tags((0..n).map(|_| dict(g, depth - 1)).collect()),
                }
            }
        };
    }
    g.budget = if chance(1, 12) { 400 } else { 40 };
    g.tag_depth(0)
}

/// Reaches the target through a random history of changes, checking states on the way.
fn by_history(t: &MTag, reg: &Reg) -> Res<Box<dyn ILTag>> {
    match (&t.val, t.kind) {
        (Val::Dict(m), Kind::Dict) => {
            let mut x = ILDictTag::with_id(t.id);
            let mut cur: BTreeMap<String, MTag> = BTreeMap::new();
            let null = MTag {
                id: 0,
                kind: Kind::Null,
                val: Val::Null,
            };
            if m.len() > 60 {
                // large: one draw decides order, junk and removals
                let mut p = Prng::new(choose(1 << 32));
                let mut keys: Vec<&String> = m.keys().collect();
                shuffle(&mut keys);
                for k in &keys {
                    if p.next() % 4 == 0 {
                        x.insert(&format!("{}-", k), build_plain(&null));
                    }
                    if p.next() % 4 == 0 {
                        x.insert(k, Box::new(ILBoolTag::with_value(true)));
                    }
                    x.insert(k, build_plain(&m[*k]));
                }
                x.mut_value().retain(|k, _| m.contains_key(k));
                core::nontrivial();
                return Ok(Box::new(x));
            }
            let mut todo: Vec<&String> = m.keys().collect();
            shuffle(&mut todo);
            let mut junk = 0;
            let churn = pick(&[0u64, 1, 4, 8]);
            while let Some(k) = todo.pop() {
                if chance(churn, 16) && junk < 30 {
                    junk += 1;
                    core::nontrivial();
                    match choose(6) {
                        0 => {
                            let k = key(junk);
                            if !m.contains_key(&k) {
                                x.insert(&k, build_plain(&null));
                                cur.insert(k, null.clone());
                            }
                        }
                        1 => {
                            // wrong value first, often one much like the right one
                            let v = if chance(1, 3) { null.clone() } else { super::c21::near(&m[k], reg) };
                            if chance(1, 2) {
                                x.mut_value().insert(k.clone(), build(&v));
                            } else {
                                x.insert(k, build(&v));
                            }
                            cur.insert(k.clone(), v);
                        }
                        2 => {
                            // drop something that was there
                            if let Some(d) = cur.keys().next().cloned() {
                                x.mut_value().remove(&d);
                                cur.remove(&d);
                                if let Some((dk, _)) = m.get_key_value(&d) {
                                    todo.push(dk);
                                }
                            }
                        }
                        3 => x.mut_value().reserve(choose(100) as usize),
                        4 => x.mut_value().shrink_to_fit(),
                        _ => {
                            // another table, filled in whatever order the old one iterates
                            let old: HashMap<String, Box<dyn ILTag>> = std::mem::take(x.mut_value());
                            let mut new = HashMap::with_capacity(choose(40) as usize);
                            new.extend(old);
                            *x.mut_value() = new;
                        }
                    }
                    if chance(1, 6) {
                        let now = MTag {
                            id: t.id,
                            kind: t.kind,
                            val: Val::Dict(cur.clone()),
                        };
                        same_bytes(&fresh_bytes(&x, "dictionary half way")?, &enc(&now), "bytes-depend-on-history", "dictionary half way through its history")?;
                    }
                    todo.push(k);
                    shuffle(&mut todo);
                    continue;
                }
                let c = by_history(&m[k], reg)?;
                let old = if chance(1, 2) { x.insert(k, c) } else { x.mut_value().insert(k.clone(), c) };
                let was = cur.insert(k.clone(), m[k].clone());
                core::eval(1);
                ensure!(old.is_some() == was.is_some(), "wrong-content", "insert({:?}) returned {} for a key that was {}", k, old.is_some(), was.is_some());
            }
            let extra: Vec<String> = cur.keys().filter(|k| !m.contains_key(*k)).cloned().collect();
            for k in extra {
                x.mut_value().remove(&k);
            }
            // entries that were overwritten with something else after all
            for (k, v) in m {
                if cur.get(k) != Some(v) {
                    x.insert(k, build_plain(v));
                }
            }
            ensure!(
                x.len() == m.len() && x.is_empty() == m.is_empty(),
                "wrong-content",
                "dictionary has {} entries instead of {}",
                x.len(),
                m.len()
            );
            Ok(Box::new(x))
        }
        (Val::StrDict(m), Kind::StrDict) => {
            let mut x = ILStrDictTag::with_id(t.id);
            let mut p = Prng::new(choose(1 << 32));
            let churn = pick(&[0u64, 1, 4, 8]);
            let mut keys: Vec<&String> = m.keys().collect();
            shuffle(&mut keys);
            for (i, k) in keys.iter().enumerate() {
                if p.next() % 16 < churn {
                    core::nontrivial();
                    match p.next() % 5 {
                        0 => {
                            x.insert(&format!("{}{}", k, i), "junk");
                        }
                        1 => {
                            // of the same length, if it can be
                            let v = &m[*k];
                            let twin = match v.char_indices().filter(|c| c.1.is_ascii()).last() {
                                Some((i, c)) if p.next() % 4 > 0 => {
                                    format!("{}{}{}", &v[..i], if c == 'a' { 'b' } else { 'a' }, &v[i + 1..])
                                }
                                _ => "overwritten".to_string(),
                            };
                            x.insert(k, &twin);
                        }
                        2 => {
                            x.mut_value().insert(format!("{}", p.next() % 50), "x".into());
                        }
                        3 => {
                            x.insert(k, &m[*k]);
                            x.mut_value().remove(*k);
                        }
                        _ => x.mut_value().reserve((p.next() % 64) as usize),
                    }
                }
                if p.next() % 2 == 0 {
                    x.insert(k, &m[*k]);
                } else {
                    x.mut_value().insert(k.to_string(), m[*k].clone());
                }
            }
            x.mut_value().retain(|k, _| m.contains_key(k));
            for (k, v) in m {
                if x.get(k) != Some(v.as_str()) {
                    x.insert(k, v);
                }
            }
            Ok(Box::new(x))
        }
        (Val::Tags(v), Kind::Seq) | (Val::Tags(v), Kind::TagArr) => {
            let mut l: Vec<Box<dyn ILTag>> = Vec::new();
            let mut out = Vec::new();
            for c in v {
                out.push(by_history(c, reg)?);
                if chance(1, 6) {
                    l.push(Box::new(ILNullTag::new()));
                    l.clear();
                }
            }
            l.extend(out);
            if t.kind == Kind::Seq {
                let mut x = ILTagSeqTag::with_id(t.id);
                *x.mut_value() = l;
                Ok(Box::new(x))
            } else {
                let mut x = ILTagArrayTag::with_id(t.id);
                x.mut_value().append(&mut l);
                Ok(Box::new(x))
            }
        }
        _ => Ok(build(t)),
    }
}

struct World {
    reg: Reg,
    tags: Vec<MTag>,
    bytes: Vec<Vec<u8>>,
    /// bytes published by the nodes
    wire: Mutex<Vec<(usize, Vec<u8>)>>,
    /// tags handed from node to node
    objects: Mutex<Vec<(usize, Box<dyn ILTag>)>>,
}

fn node(w: &World, me: u64) -> Res<()> {
    let f = make_factory(&w.reg);
    let mut mine: Vec<(usize, Box<dyn ILTag>)> = Vec::new();
    for _ in 0..2 + choose(6) {
        sched::yield_point(sched::Y_OP);
        let i = choose(w.tags.len() as u64) as usize;
        let m = &w.tags[i];
        let op = weighted(&[6, 4, 3, 3, 2, 2, 3]);
        tr!("node {} tag {} op {}", me, i, op);
        core::ev(0x91, me, (i * 16 + op) as u64);
        match op {
            0 => {
                let t = by_history(m, &w.reg)?;
                let b = fresh_bytes(t.as_ref(), "own tag")?;
                same_bytes(&b, &w.bytes[i], "bytes-depend-on-history", &format!("node {} serialized {}", me, m.short()))?;
                same_bytes(&fresh_bytes(t.as_ref(), "again")?, &w.bytes[i], "bytes-depend-on-history", "second serialization of the same tag")?;
                ensure!(t.size() == b.len() as u64, "wrong-size", "size() is {} for {} bytes", t.size(), b.len());
                w.wire.lock().unwrap().push((i, b));
                if chance(1, 2) {
                    w.objects.lock().unwrap().push((i, t));
                } else {
                    mine.push((i, t));
                }
            }
            1 => {
                // bytes of another node
                let got = {
                    let g = w.wire.lock().unwrap();
                    if g.is_empty() {
                        continue;
                    }
                    g[choose(g.len() as u64) as usize].clone()
                };
                let t = decode_slice(&f, &got.1, "bytes of another node")?;
                same(t.as_ref(), &w.tags[got.0], &w.reg, "decoded on another node")?;
                same_bytes(&fresh_bytes(t.as_ref(), "re-encoding")?, &w.bytes[got.0], "bytes-not-reproduced", "re-encoding of canonical bytes on another node")?;
                mine.push((got.0, t));
            }
            2 => {
                // the object itself moves to this node
                let got = {
                    let mut g = w.objects.lock().unwrap();
                    if g.is_empty() {
                        continue;
                    }
                    let n = choose(g.len() as u64) as usize;
                    g.swap_remove(n)
                };
                same_bytes(&fresh_bytes(got.1.as_ref(), "moved tag")?, &w.bytes[got.0], "bytes-depend-on-history", "tag moved between nodes")?;
                mine.push(got);
            }
            3 => {
                if mine.is_empty() {
                    continue;
                }
                let (a, t) = &mine[choose(mine.len() as u64) as usize];
                let (b, u) = &mine[choose(mine.len() as u64) as usize];
                core::eval(1);
                let want = w.bytes[*a] == w.bytes[*b];
                let got = util::iltag_are_equal(t.as_ref(), u.as_ref());
                ensure!(
                    got == want,
                    "wrong-comparison",
                    "iltag_are_equal() is {} for {} and {}",
                    got,
                    w.tags[*a].short(),
                    w.tags[*b].short()
                );
            }
            4 => {
                if mine.is_empty() {
                    continue;
                }
                let n = choose(mine.len() as u64) as usize;
                let i = mine[n].0;
                let c = match util::iltag_clone_with_factory(&f, mine[n].1.as_ref()) {
                    Ok(c) => c,
                    Err(e) => return core::viol("clone-failed", format!("{:?} for {}", e, w.tags[i].short())),
                };
                same(c.as_ref(), &w.tags[i], &w.reg, "clone")?;
                same_bytes(&fresh_bytes(c.as_ref(), "clone")?, &w.bytes[i], "bytes-depend-on-history", "clone")?;
                ensure!(
                    util::iltag_are_equal(c.as_ref(), mine[n].1.as_ref()),
                    "wrong-comparison",
                    "a clone does not equal its original {}",
                    w.tags[i].short()
                );
                if w.reg.customs().is_empty() && !w.reg.strict {
                    match util::iltag_clone(mine[n].1.as_ref()) {
                        Ok(c) => same_bytes(&fresh_bytes(c.as_ref(), "clone")?, &w.bytes[i], "bytes-depend-on-history", "iltag_clone()")?,
                        Err(e) => return core::viol("clone-failed", format!("{:?} for {}", e, w.tags[i].short())),
                    }
                }
                mine.push((i, c));
            }
            6 => {
                // the same tag with one byte of its value or one length changed
                let (a, b) = if chance(1, 2) {
                    let n = 1 + match choose(4) {
                        0 => choose(40) as usize,
                        1 => pick(&crate::model::LEN_POOL),
                        2 => choose(3000) as usize,
                        _ => pick(&crate::model::BIG_LEN_POOL),
                    };
                    let v = gen_bytes(n);
                    let mut u = v.clone();
                    match choose(4) {
                        0 => u.truncate(n - 1),
                        1 => u.push(v[n - 1]),
                        2 => *u.last_mut().unwrap() ^= 1 << choose(8),
                        _ => u[choose(n as u64) as usize] ^= 1 << choose(8),
                    }
                    if chance(1, 8) {
                        u = v.clone();
                    }
                    let id = pick(&[16u64, 18]);
                    (enc_raw(id, &v), enc_raw(id, &u))
                } else {
                    let v = w.bytes[i].clone();
                    let mut u = v.clone();
                    let n = u.len() as u64;
                    let at = match choose(3) {
                        0 => n - 1 - choose(n.min(16)),
                        1 => choose(n.min(16)),
                        _ => choose(n),
                    };
                    u[at as usize] ^= 1 << choose(8);
                    (v, u)
                };
                let t = decode_slice(&f, &a, "first of two")?;
                let u = match f.from_bytes(&b) {
                    Ok(u) => u,
                    Err(_) => continue,
                };
                core::nontrivial();
                core::eval(1);
                let want = fresh_bytes(t.as_ref(), "first of two")? == fresh_bytes(u.as_ref(), "second of two")?;
                let got = (util::iltag_are_equal(t.as_ref(), u.as_ref()), util::iltag_are_equal(u.as_ref(), t.as_ref()));
                ensure!(
                    got == (want, want),
                    "wrong-comparison",
                    "iltag_are_equal() is {:?} for {} and {} bytes of which the first different one is {:?}",
                    got,
                    a.len(),
                    b.len(),
                    a.iter().zip(b.iter()).position(|(x, y)| x != y)
                );
            }
            _ => {
                // damage a dictionary in one entry: equality must notice
                if mine.is_empty() {
                    continue;
                }
                let n = choose(mine.len() as u64) as usize;
                let (i, t) = &mut mine[n];
                let other = match util::iltag_clone_with_factory(&f, t.as_ref()) {
                    Ok(c) => c,
                    Err(e) => return core::viol("clone-failed", format!("{:?}", e)),
                };
                let changed = if let Some(d) = il2_iltags::tags::tag_downcast_mut::<ILDictTag>(t.as_mut()) {
                    let k = format!("{}\u{10ffff}new", choose(3));
                    d.insert(&k, Box::new(ILNullTag::new()));
                    core::eval(1);
                    let eq = util::iltag_are_equal(t.as_ref(), other.as_ref());
                    ensure!(!eq, "wrong-comparison", "a dictionary with one more entry {:?} compares equal", k);
                    let d = il2_iltags::tags::tag_downcast_mut::<ILDictTag>(t.as_mut()).unwrap();
                    d.mut_value().remove(&k);
                    true
                } else if let Some(d) = il2_iltags::tags::tag_downcast_mut::<ILStrDictTag>(t.as_mut()) {
                    let k = format!("{}\u{10ffff}new", choose(3));
                    d.insert(&k, "");
                    core::eval(1);
                    let eq = util::iltag_are_equal(t.as_ref(), other.as_ref());
                    ensure!(!eq, "wrong-comparison", "a dictionary with one more entry {:?} compares equal", k);
                    let d = il2_iltags::tags::tag_downcast_mut::<ILStrDictTag>(t.as_mut()).unwrap();
                    d.mut_value().remove(&k);
                    true
                } else {
                    false
                };
                if changed {
                    core::nontrivial();
                    same_bytes(&fresh_bytes(t.as_ref(), "restored")?, &w.bytes[*i], "bytes-depend-on-history", "entry added and removed again")?;
                }
            }
        }
    }
    Ok(())
}

pub fn run() -> Res<()> {
    let reg = gen_reg();
    let mut g = Gen::new(&reg, 0, 2);
    let n = 1 + choose(4);
    let mut tags = Vec::new();
    for _ in 0..n {
        let t = match weighted(&[8, 2]) {
            0 => dict(&mut g, 2),
            _ => {
                g.scale(&[200]);
                g.tag()
            }
        };
        let t = if chance(1, 10) { tall(&mut g, t) } else { t };
        // a near twin
        if chance(1, 4) {
            tags.push(twin(&t));
        }
        tags.push(t);
    }
    let bytes: Vec<Vec<u8>> = tags.iter().map(enc).collect();
    let nodes = 1 + choose(3);
    sample(|| format!("{} nodes with own hash seeds, {} tags, first {}", nodes, tags.len(), tags[0].short()));
    let w = Arc::new(World {
        reg,
        tags,
        bytes,
        wire: Mutex::new(Vec::new()),
        objects: Mutex::new(Vec::new()),
    });
    for epoch in 0..1 + choose(2) {
        // every epoch starts all processes anew: other hash seeds, only bytes survive
        w.objects.lock().unwrap().clear();
        if epoch > 0 {
            core::fault("process restart (new hash seeds)");
        }
        let jobs: Vec<Job> = (0..nodes)
            .map(|i| {
                let w = w.clone();
                Box::new(move || node(&w, i)) as Job
            })
            .collect();
        run_tasks(jobs, 8, 0)?;
    }
    Ok(())
}

/// The tag deep inside other containers.
fn tall(g: &mut Gen, mut t: MTag) -> MTag {
    let n = 4 + choose(if core::thorough() { 60 } else { 24 });
    core::probe("dictionaries in a tall tower");
    for i in 0..n as usize {
        let more = if chance(1, 3) { 1 + choose(3) } else { 0 };
        t = match weighted(&[4, 1, 1]) {
            0 => {
                let mut m = BTreeMap::new();
                for j in 0..more {
                    g.budget = 4;
                    m.insert(format!("{}{}", key(i), j), g.tag_depth(0));
                }
                m.insert(key(i), t);
                MTag { id: 30, kind: Kind::Dict, val: Val::Dict(m) }
            }
            k => {
                let mut v = vec![t];
                if more == 1 {
                    g.budget = 4;
                    v.push(g.tag_depth(0));
                }
                MTag {
                    id: 20 + k as u64,
                    kind: if k == 1 { Kind::TagArr } else { Kind::Seq },
                    val: Val::Tags(v),
                }
            }
        };
    }
    t
}

/// A value that differs in little or nothing.
fn twin(t: &MTag) -> MTag {
    let mut u = t.clone();
    match &mut u.val {
        Val::Dict(m) if !m.is_empty() && chance(2, 3) => {
            let k = m.keys().nth(choose(m.len() as u64) as usize).unwrap().clone();
            let v = m.remove(&k).unwrap();
            if chance(1, 2) {
                m.insert(format!("{}\0", k), v);
            }
        }
        Val::StrDict(m) if !m.is_empty() && chance(2, 3) => {
            let k = m.keys().nth(choose(m.len() as u64) as usize).unwrap().clone();
            let v = m.remove(&k).unwrap();
            if chance(1, 2) {
                m.insert(k, format!("{}\0", v));
            }
        }
        _ => (),
    }
    u
}
