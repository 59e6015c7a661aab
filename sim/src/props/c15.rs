//! Decoding follows the registrations in force.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::tr;
use il2_iltags::tags::standard::factory::create_std_engine;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{tag_downcast_mut, tag_downcast_ref, util, ErrorKind, ILTagCreator, ILTagCreatorEngine};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub const RULE: &str = "one evaluation compares a decode, a creation or the creator returned by a registration with the registrations in force; a history is non-trivial if registrations changed between decodes";

thread_local! {
    /// (mark, id) of every call into a creator of ours
    static CALLS: RefCell<Vec<(u32, u64)>> = const { RefCell::new(Vec::new()) };
}

/// A user creator that can be told from any other.
struct MarkCreator {
    mark: u32,
    kind: Kind,
    inner: Box<dyn ILTagCreator>,
}

impl ILTagCreator for MarkCreator {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> {
        core::step();
        CALLS.with(|c| c.borrow_mut().push((self.mark, id)));
        let mut t = self.inner.create_empty_tag(id);
        if self.kind == Kind::Payload {
            if let Some(p) = tag_downcast_mut::<RecTag>(t.as_mut()) {
                p.mut_payload().mark = self.mark;
            }
        }
        t
    }
}

fn take_calls() -> Vec<(u32, u64)> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// What is registered for an id.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Entry {
    kind: Kind,
    /// 0: the creator the library registers
    mark: u32,
}

/// A factory (or a bare engine) and what was done to it.
struct Node {
    real: Real,
    map: BTreeMap<u64, Entry>,
    strict: bool,
    /// creators handed back, which may be registered again
    spare: Vec<(u64, Entry, Box<dyn ILTagCreator>)>,
    changes: u64,
    name: &'static str,
}

enum Real {
    Factory(ILStandardTagFactory),
    Engine(ILTagCreatorEngine),
}

impl Node {
    fn engine(&mut self) -> &mut ILTagCreatorEngine {
        match &mut self.real {
            Real::Factory(f) => f.engine(),
            Real::Engine(e) => e,
        }
    }
    fn create(&self, id: u64) -> Option<Box<dyn ILTag>> {
        match &self.real {
            Real::Factory(f) => f.create_tag(id),
            Real::Engine(e) => e.create_tag(id),
        }
    }
    fn reg(&self) -> Reg {
        Reg {
            map: self.map.iter().map(|(i, e)| (*i, e.kind)).collect(),
            strict: self.strict,
        }
    }
}

const IMPLICIT: [(u64, &[Kind]); 15] = [
    (0, &[Kind::Null]),
    (1, &[Kind::Bool, Kind::U8, Kind::I8]),
    (2, &[Kind::I8, Kind::U8, Kind::Bool]),
    (3, &[Kind::U8, Kind::I8, Kind::Bool]),
    (4, &[Kind::I16, Kind::U16]),
    (5, &[Kind::U16, Kind::I16]),
    (6, &[Kind::I32, Kind::U32, Kind::F32]),
    (7, &[Kind::U32, Kind::I32, Kind::F32]),
    (8, &[Kind::I64, Kind::U64, Kind::F64]),
    (9, &[Kind::U64, Kind::I64, Kind::F64]),
    (10, &[Kind::ILInt, Kind::SILInt]),
    (11, &[Kind::F32, Kind::U32, Kind::I32]),
    (12, &[Kind::F64, Kind::U64, Kind::I64]),
    (13, &[Kind::B128]),
    (14, &[Kind::SILInt, Kind::ILInt]),
];

/// Kinds that suit an id.
fn kind_for(id: u64) -> Kind {
    if let Some((_, k)) = IMPLICIT.iter().find(|(i, _)| *i == id) {
        return pick(k);
    }
    if id == 16 && chance(1, 4) {
        return Kind::Bytes;
    }
    if id == 18 && chance(1, 4) {
        return Kind::BigInt;
    }
    if chance(1, 2) {
        Kind::Payload
    } else {
        pick(&WITH_ID)
    }
}

fn pick_id(pool: &[u64]) -> u64 {
    match weighted(&[6, 3, 2, 1]) {
        0 => pick(pool),
        1 => choose(32),
        2 => pick(&ID_POOL),
        _ => gen_u64(),
    }
}

pub fn run() -> Res<()> {
    take_calls();
    let mut nodes = Vec::new();
    let n = 1 + choose(3);
    let mut mark = 0u32;
    for _ in 0..n {
        let strict = chance(1, 2);
        let std: BTreeMap<u64, Entry> = STD.iter().map(|(i, k)| (*i, Entry { kind: *k, mark: 0 })).collect();
        let (real, map, name) = match weighted(&[8, 1, 1]) {
            0 => (Real::Factory(ILStandardTagFactory::new(strict)), std, "factory"),
            1 => (Real::Engine(create_std_engine(strict)), std, "standard engine"),
            _ => (Real::Engine(ILTagCreatorEngine::new(strict)), BTreeMap::new(), "empty engine"),
        };
        nodes.push(Node { real, map, strict, spare: Vec::new(), changes: 0, name });
    }
    // a few ids get most of the attention
    let many = chance(1, 60);
    let pool: Vec<u64> = (0..if many { 5 + choose(300) } else { 1 + choose(4) })
        .map(|_| match choose(if many { 12 } else { 4 }) {
            0 => choose(15),
            1 => 16 + choose(16),
            2 => pick(&ID_POOL),
            3 => pick(&[17u64, 21, 22, 30, 32, 33, 100, 1 << 40]),
            _ => 1000 + choose(400),
        })
        .filter(|i| *i != 15)
        .collect();
    let pool = if pool.is_empty() { vec![22] } else { pool };
    let mut old: Vec<Reg> = Vec::new();
    let ops = 3 + choose(if many || chance(1, 60) { 400 } else { 16 });
    let mut hist = String::new();
    if chance(1, 300) {
        // one node learns a whole vocabulary
        let k = choose(n) as usize;
        let node = &mut nodes[k];
        let (base, step, count) = (pick(&[32u64, 1000, 1 << 32]), pick(&[1u64, 3, 256, 65_537]), 100 + choose(1500));
        core::gauge("vocabulary", count);
        hist += &format!("{}: register {} ids from {} step {}; ", k, count, base, step);
        tr!("{}: register {} ids from {} step {}", k, count, base, step);
        for i in 0..count {
            let id = base + i * step;
            mark += 1;
            let e = Entry { kind: Kind::Payload, mark };
            let had = node.map.insert(id, e);
            let back = node.engine().register(id, Box::new(MarkCreator { mark, kind: Kind::Payload, inner: creator(Kind::Payload) }));
            returned(node, id, had, back, "register")?;
        }
        node.changes += 1;
    }
    for _ in 0..ops {
        core::advance(1_000_000);
        let k = choose(n) as usize;
        let other = choose(n) as usize;
        let op = weighted(&[8, 4, 8, 2, 2]);
        core::ev(0x70, op as u64, k as u64);
        match op {
            0 => {
                let node = &mut nodes[k];
                let id = pick_id(&pool);
                if id == 15 {
                    continue;
                }
                old.push(node.reg());
                let again: Vec<usize> = (0..node.spare.len()).filter(|i| node.spare[*i].0 == id).collect();
                let (e, c): (Entry, Box<dyn ILTagCreator>) = if !again.is_empty() && chance(1, 2) {
                    let (_, e, c) = node.spare.remove(pick(&again));
                    (e, c)
                } else {
                    let kind = kind_for(id);
                    if chance(1, 8) {
                        (Entry { kind, mark: 0 }, creator(kind))
                    } else {
                        mark += 1;
                        (Entry { kind, mark }, Box::new(MarkCreator { mark, kind, inner: creator(kind) }))
                    }
                };
                hist += &format!("{}: register {} as {:?}/{}; ", k, id, e.kind, e.mark);
                tr!("{}: register {} as {:?}/{}", k, id, e.kind, e.mark);
                let had = node.map.insert(id, e);
                let back = node.engine().register(id, c);
                node.changes += 1;
                returned(node, id, had, back, "register")?;
            }
            1 => {
                let node = &mut nodes[k];
                let id = pick_id(&pool);
                old.push(node.reg());
                hist += &format!("{}: remove {}; ", k, id);
                tr!("{}: remove {}", k, id);
                let had = node.map.remove(&id);
                let back = node.engine().deregister(id);
                if had.is_some() {
                    node.changes += 1;
                }
                returned(node, id, had, back, "deregister")?;
            }
            2 => {
                // bytes may come from a peer with other or earlier registrations
                let writer = match choose(4) {
                    0 => nodes[other].reg(),
                    1 if !old.is_empty() => old[choose(old.len() as u64) as usize].clone(),
                    _ => nodes[k].reg(),
                };
                decode(&nodes[k], &writer, &pool, &hist)?;
            }
            3 => {
                for id in pool.iter().cloned().take(8).chain(Some(choose(32))) {
                    creation(&nodes[k], id, &hist)?;
                }
            }
            _ => {
                ensure!(
                    nodes[k].engine().strict() == nodes[k].strict,
                    "strict-flag",
                    "strict() does not return what the {} was made with",
                    nodes[k].name
                );
                creation(&nodes[k], pick_id(&pool), &hist)?;
            }
        }
        if nodes[k].changes > 0 {
            core::nontrivial();
        }
        if chance(1, 4) {
            creation(&nodes[other], pick(&pool), &hist)?;
        }
    }
    // every registration is still what the history says
    for node in &nodes {
        for id in (0..34).chain(pool.iter().cloned()).chain(node.map.keys().cloned().collect::<Vec<_>>()) {
            creation(node, id, &hist)?;
        }
    }
    sample(|| hist.clone());
    Ok(())
}

/// The creator handed back is the one that was registered.
fn returned(node: &mut Node, id: u64, had: Option<Entry>, back: Option<Box<dyn ILTagCreator>>, what: &str) -> Res<()> {
    core::eval(1);
    match (had, back) {
        (None, None) => Ok(()),
        (Some(_), None) => core::viol("creator-not-returned", format!("{}({}) returned nothing although a creator was registered", what, id)),
        (None, Some(_)) => core::viol("creator-out-of-nowhere", format!("{}({}) returned a creator although none was registered", what, id)),
        (Some(e), Some(c)) => {
            take_calls();
            let t = c.create_empty_tag(id);
            let calls = take_calls();
            judge_tag(t.as_ref(), id, e, &calls, &format!("creator returned by {}({})", what, id))?;
            node.spare.push((id, e, c));
            Ok(())
        }
    }
}

/// An empty tag comes from the creator described by `e`.
fn judge_tag(t: &dyn ILTag, id: u64, e: Entry, calls: &[(u32, u64)], what: &str) -> Res<()> {
    let want: Vec<(u32, u64)> = if e.mark == 0 { vec![] } else { vec![(e.mark, id)] };
    ensure!(
        calls.iter().all(|c| want.contains(c)) && (want.is_empty() || !calls.is_empty()),
        "wrong-creator",
        "{}: expected {:?}, the creators called are {:?}",
        what,
        e,
        calls
    );
    ensure!(t.id() == id, "wrong-creator", "{}: a tag with id {} instead of {}", what, t.id(), id);
    if let Err(m) = extract_kind(t, e.kind, &Reg::std(false)) {
        return core::viol("wrong-creator", format!("{}: {} (expected {:?})", what, m, e));
    }
    if e.kind == Kind::Payload && e.mark != 0 {
        let got = tag_downcast_ref::<RecTag>(t).map(|p| p.payload().mark);
        ensure!(got == Some(e.mark), "wrong-creator", "{}: made by {:?} instead of {:?}", what, got, e);
    }
    Ok(())
}

fn creation(node: &Node, id: u64, hist: &str) -> Res<()> {
    core::eval(1);
    take_calls();
    let t = node.create(id);
    let calls = take_calls();
    let what = format!("create_tag({}) of a {} after {}", id, if node.strict { "strict factory" } else { "factory" }, hist);
    match (node.map.get(&id), t) {
        (Some(e), Some(t)) => judge_tag(t.as_ref(), id, *e, &calls, &what),
        (Some(e), None) => core::viol("registration-lost", format!("{}: nothing although {:?} is registered", what, e)),
        (None, Some(t)) => {
            ensure!(id > 15 && !node.strict, "unregistered-created", "{}: a tag although none is registered", what);
            judge_tag(t.as_ref(), id, Entry { kind: Kind::Raw, mark: 0 }, &calls, &what)
        }
        (None, None) => {
            ensure!(id <= 15 || node.strict, "raw-missing", "{}: no raw tag", what);
            Ok(())
        }
    }
}

/// A tag built mostly of the ids in the pool, as a peer with the given registrations writes it.
fn message(writer: &Reg, pool: &[u64]) -> MTag {
    let mut g = Gen::sized(writer, &[30, 80, 200], 3);
    let one = |g: &mut Gen, depth: usize| -> MTag {
        let id = pick(pool);
        match writer.kind(id) {
            Some(k) => g.of(id, k, depth),
            None => g.tag_depth(depth),
        }
    };
    let levels = choose(4);
    let mut t = one(&mut g, 2);
    for _ in 0..levels {
        let mut kids = vec![t];
        for _ in 0..choose(3) {
            kids.insert(choose(kids.len() as u64 + 1) as usize, one(&mut g, 1));
        }
        // a container known to the writer
        let cs: Vec<(u64, Kind)> =
            writer.map.iter().filter(|(i, k)| **i > 15 && matches!(k, Kind::Seq | Kind::TagArr | Kind::Dict | Kind::Payload)).map(|(i, k)| (*i, *k)).collect();
        if cs.is_empty() {
            t = kids.remove(0);
            break;
        }
        let (id, kind) = pick(&cs);
        let val = match kind {
            Kind::Seq | Kind::TagArr => Val::Tags(kids),
            Kind::Dict => Val::Dict(kids.into_iter().enumerate().map(|(i, t)| (format!("k{}", i), t)).collect()),
            _ => Val::Payload(PVal {
                a: choose(1000) as u32,
                b: gen_u64(),
                c: gen_i64(),
                flag: 1,
                tag: Some(Box::new(kids.remove(0))),
                rest: gen_bytes(choose(6) as usize),
            }),
        };
        t = MTag { id, kind, val };
    }
    t
}

/// Every payload was made by the creator registered for its id; counts the ids met.
fn walk(t: &dyn ILTag, kind: Kind, map: &BTreeMap<u64, Entry>, reg: &Reg, ids: &mut BTreeMap<u64, usize>) -> Res<()> {
    *ids.entry(t.id()).or_insert(0) += 1;
    let mut kids: Vec<&dyn ILTag> = Vec::new();
    match kind {
        Kind::Payload => {
            if let Some(p) = tag_downcast_ref::<RecTag>(t) {
                let want = map.get(&t.id()).map(|e| e.mark);
                ensure!(
                    want == Some(p.payload().mark),
                    "wrong-creator",
                    "a payload with id {} was made by creator {} instead of {:?}",
                    t.id(),
                    p.payload().mark,
                    want
                );
                kids.extend(p.payload().tag.iter().map(|t| t.as_ref()));
            }
        }
        Kind::Seq => kids.extend(tag_downcast_ref::<ILTagSeqTag>(t).iter().flat_map(|s| s.value().iter().map(|t| t.as_ref()))),
        Kind::TagArr => kids.extend(tag_downcast_ref::<ILTagArrayTag>(t).iter().flat_map(|s| s.value().iter().map(|t| t.as_ref()))),
        Kind::Dict => kids.extend(tag_downcast_ref::<ILDictTag>(t).iter().flat_map(|s| s.value().values().map(|t| t.as_ref()))),
        _ => (),
    }
    for k in kids {
        if let Some(kk) = reg.kind(k.id()) {
            walk(k, kk, map, reg, ids)?;
        }
    }
    Ok(())
}

fn decode(node: &Node, writer: &Reg, pool: &[u64], hist: &str) -> Res<()> {
    let f = match &node.real {
        Real::Factory(f) => f,
        _ => return Ok(()),
    };
    let reg = node.reg();
    let msgs: Vec<MTag> = (0..1 + choose(3)).map(|_| message(writer, pool)).collect();
    let mut bytes = Vec::new();
    for m in &msgs {
        bytes.extend(enc(m));
    }
    let way = weighted(&[6, 2, 2, 2]);
    let faulty = way == 0 && chance(1, 5);
    let mut plan = Plan::benign(bytes.len());
    if faulty {
        plan.fail = Some(Fail {
            at: choose(bytes.len() as u64 + 1),
            how: FailHow::Err(pick(&HARD_KINDS)),
            sticky: true,
            partial: chance(1, 2),
            id: 71,
        });
    }
    let src = if faulty { pick(&SRC_FAULTY) } else { pick_src() };
    let mut at = 0;
    let mut res = Ok(());
    let mut one = |r: Result<Box<dyn ILTag>, ErrorKind>, at: &mut usize, fired: bool| -> Res<bool> {
        core::eval(1);
        let calls = take_calls();
        for c in &calls {
            ensure!(
                node.map.get(&c.1).map(|e| e.mark) == Some(c.0),
                "wrong-creator",
                "decoding called creator {} for id {}, registered is {:?}; {}",
                c.0,
                c.1,
                node.map.get(&c.1),
                hist
            );
        }
        let mut p = Parser::new(&reg);
        let want = p.tag(&bytes[*at..]);
        match (want, r) {
            (Ok((m, n)), Ok(t)) => {
                if !p.dup {
                    same(t.as_ref(), &m, &reg, "decoded under the current registrations")?;
                }
                let mut ids = BTreeMap::new();
                walk(t.as_ref(), m.kind, &node.map, &reg, &mut ids)?;
                if !p.dup {
                    for (id, k) in ids {
                        let e = match node.map.get(&id) {
                            Some(e) if e.mark != 0 => *e,
                            _ => continue,
                        };
                        // the outermost tag may have been made by the caller
                        let k = if way == 2 && id == m.id { k - 1 } else { k };
                        let got = calls.iter().filter(|c| c.1 == id).count();
                        ensure!(
                            got >= k,
                            "wrong-creator",
                            "{} tags with id {} decoded but {:?} was called {} times; {}",
                            k,
                            id,
                            e,
                            got,
                            hist
                        );
                    }
                }
                *at += n;
                Ok(true)
            }
            (Ok((m, _)), Err(e)) => {
                ensure!(fired, "decode-failed", "{:?} for {} which decodes under {:?}; {}", e, m.short(), reg.customs(), hist);
                Ok(false)
            }
            (Err(e), Ok(t)) => core::viol(
                if e == PErr::Unknown { "unknown-accepted" } else { "decoded-otherwise" },
                format!(
                    "a tag with id {} although the current registrations say {:?} for {}; {}",
                    t.id(),
                    e,
                    hex(&bytes[*at..]),
                    hist
                ),
            ),
            (Err(PErr::Unknown), Err(e)) => {
                ensure!(
                    fired || !only_unknown(&bytes[*at..], &reg) || matches!(e, ErrorKind::UnknownTag),
                    "wrong-error",
                    "{:?} instead of UnknownTag; strict {} {}",
                    e,
                    node.strict,
                    hist
                );
                core::probe("unknown tag refused");
                Ok(false)
            }
            (Err(_), Err(_)) => {
                core::probe("other kind refused");
                Ok(false)
            }
        }
    };
    take_calls();
    match way {
        0 => with_source(src, &bytes, plan, |s, st| {
            for _ in 0..msgs.len() {
                let r = f.deserialize(s.r());
                let fired = st.map(|s| s.borrow().fired.is_some()).unwrap_or(false);
                match one(r, &mut at, fired && faulty) {
                    Ok(true) => (),
                    Ok(false) => break,
                    Err(e) => {
                        res = Err(e);
                        break;
                    }
                }
                if let Some(p) = s.pos() {
                    if p != at as u64 {
                        res = core::viol("wrong-extent", format!("decoding consumed {} bytes instead of {}", p, at));
                        break;
                    }
                }
            }
        }),
        1 => {
            bytes.truncate(enc(&msgs[0]).len());
            let r = f.from_bytes(&bytes);
            // from_bytes wants exactly one tag
            let mut p = Parser::new(&reg);
            let trailing = matches!(p.tag(&bytes), Ok((_, n)) if n != bytes.len());
            if !trailing {
                // the closure borrows the bytes as they are now
                let reg2 = &reg;
                judge_plain(r, &bytes, reg2, node, hist)?;
            }
        }
        2 => {
            // into a tag the caller made
            let m = &msgs[0];
            if let Some(k) = reg.kind(m.id) {
                let mut t = blank(m.id, k);
                if let Some(p) = tag_downcast_mut::<RecTag>(t.as_mut()) {
                    p.mut_payload().mark = node.map.get(&m.id).map(|e| e.mark).unwrap_or(0);
                }
                let r = with_source(src, &bytes, plan, |s, _| f.deserialize_into(s.r(), t.as_mut()));
                one(r.map(|_| t), &mut at, false)?;
            }
        }
        _ => {
            // cloning a tag of the writer through this factory
            let m = &msgs[0];
            let real = build(m);
            bytes = enc(m);
            let mut p = Parser::new(&reg);
            let trailing = matches!(p.tag(&bytes), Ok((_, n)) if n != bytes.len());
            let r = util::iltag_clone_with_factory(f, real.as_ref());
            if !trailing {
                judge_plain(r, &bytes, &reg, node, hist)?;
            }
        }
    }
    res?;
    // nothing a decode did changed the registrations
    for id in pool {
        creation(node, *id, hist)?;
    }
    Ok(())
}

/// Nothing but the missing registrations is wrong with the tag.
fn only_unknown(b: &[u8], reg: &Reg) -> bool {
    let mut r = reg.clone();
    r.strict = false;
    for (i, k) in STD.iter().filter(|(i, _)| *i <= 15) {
        r.map.entry(*i).or_insert(*k);
    }
    Parser::new(&r).tag(b).is_ok()
}

fn judge_plain(r: Result<Box<dyn ILTag>, ErrorKind>, bytes: &[u8], reg: &Reg, node: &Node, hist: &str) -> Res<()> {
    core::eval(1);
    take_calls();
    let mut p = Parser::new(reg);
    match (p.tag(bytes), r) {
        (Ok((m, _)), Ok(t)) => {
            if !p.dup {
                same(t.as_ref(), &m, reg, "decoded under the current registrations")?;
            }
            walk(t.as_ref(), m.kind, &node.map, reg, &mut BTreeMap::new())
        }
        (Ok((m, _)), Err(e)) => core::viol("decode-failed", format!("{:?} for {}; {}", e, m.short(), hist)),
        (Err(e), Ok(t)) => core::viol("unknown-accepted", format!("a tag with id {} although the registrations say {:?}; {}", t.id(), e, hist)),
        (Err(PErr::Unknown), Err(e)) => {
            ensure!(!only_unknown(bytes, reg) || matches!(e, ErrorKind::UnknownTag), "wrong-error", "{:?} instead of UnknownTag; {}", e, hist);
            Ok(())
        }
        _ => Ok(()),
    }
}
