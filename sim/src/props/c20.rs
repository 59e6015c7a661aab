//! Nodes with different vocabularies exchange tags without loss.
use super::*;
use crate::core::{chance, choose, pick, range, sample, weighted};
use crate::tr;
use il2_iltags::io::array::{ByteArrayReader, VecWriter};
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{tag_downcast_mut, tag_downcast_ref, util, ErrorKind, ILRawTag};
use std::collections::{BTreeMap, BTreeSet};

pub const RULE: &str = "one evaluation judges one frame as sent, received, stored, recovered or passed on by a simulated node against the original tag; a history is non-trivial if a node that does not know every type involved took part or a network or crash fault happened";

/// How a payload travels.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    Stream,
    Seq,
    Array,
    Dict,
}

enum Held {
    /// decoded by the node's vocabulary
    Live(Box<dyn ILTag>),
    /// stored by an earlier version of the node, unreadable for this one
    Opaque(Vec<u8>),
}

struct Node {
    reg: Reg,
    f: ILStandardTagFactory,
    /// what the disk holds and how much of it survives a crash
    disk: Vec<u8>,
    synced: usize,
    have: BTreeMap<u64, Held>,
    acked: BTreeSet<(u64, usize)>,
    up: bool,
}

#[derive(Clone)]
struct Msg {
    from: usize,
    to: usize,
    ack: bool,
    bytes: Vec<u8>,
    /// lost its end on the way
    cut: bool,
}

struct World {
    all: Reg,
    nodes: Vec<Node>,
    links: BTreeSet<(usize, usize)>,
    down: BTreeSet<(usize, usize)>,
    net: Vec<Msg>,
    /// the originals
    tags: Vec<MTag>,
    style: Style,
    faults: bool,
    history: String,
}

fn linked(w: &World, a: usize, b: usize) -> bool {
    w.links.contains(&(a.min(b), a.max(b)))
}

fn note(w: &mut World, s: String) {
    tr!("{}", s);
    if w.history.len() < 700 {
        w.history.push_str("; ");
        w.history.push_str(&s);
    }
}

fn gen_vocab(all: &Reg, style: Style) -> Reg {
    let mut r = all.clone();
    r.strict = chance(1, 3);
    for (id, _) in all.customs() {
        if chance(1, 2) {
            r.map.remove(&id);
        }
    }
    if chance(1, 2) {
        let keep = match style {
            Style::Stream => 0,
            Style::Seq => 22,
            Style::Array => 21,
            Style::Dict => 30,
        };
        for id in 16..32 {
            if id != keep && chance(1, 4) {
                r.map.remove(&id);
            }
        }
    }
    r
}

/// Every type in the tag is one the vocabulary has.
fn covers(reg: &Reg, m: &MTag) -> bool {
    reg.kind(m.id) == Some(m.kind) && m.children().iter().all(|c| covers(reg, c))
}

// ---------------------------------------------------------------------------------------------
// Frames

fn seq_tag(seq: u64) -> MTag {
    MTag { id: 9, kind: Kind::U64, val: Val::Fixed(seq.to_be_bytes().to_vec()) }
}

fn frame_bytes(style: Style, seq: u64, body: &[u8]) -> Vec<u8> {
    // put together by hand from the bytes of the original
    let s = enc(&seq_tag(seq));
    let (id, inner) = match style {
        Style::Stream => return [&s[..], body].concat(),
        Style::Seq => (22, [&s[..], body].concat()),
        Style::Array => (21, [&[2u8][..], &s, body].concat()),
        Style::Dict => (30, [&[2u8][..], &[17, 4], b"body", body, &[17, 3], b"seq", &s].concat()),
    };
    let mut out = vec![];
    ilint_put(&mut out, id);
    ilint_put(&mut out, inner.len() as u64);
    out.extend(inner);
    out
}

fn write_frame(style: Style, seq: u64, body: Box<dyn ILTag>, cap: usize, plan: Plan) -> (Result<(), ErrorKind>, Vec<u8>, Box<dyn ILTag>) {
    let s: Box<dyn ILTag> = Box::new(ILUInt64Tag::with_value(seq));
    let snk = if plan.fail.is_some() { pick(&[SnkKind::WriteWriter, SnkKind::Seekable, SnkKind::User]) } else { pick(&SNK_ALL) };
    match style {
        Style::Stream => {
            let (r, b) = with_sink(snk, cap, plan, |w, _| {
                s.serialize(w)?;
                body.serialize(w)
            });
            (r, b, body)
        }
        Style::Seq => {
            let mut t = ILTagSeqTag::new();
            t.mut_value().push(s);
            t.mut_value().push(body);
            let (r, b) = with_sink(snk, cap, plan, |w, _| t.serialize(w));
            let body = t.mut_value().pop().expect("body");
            (r, b, body)
        }
        Style::Array => {
            let mut t = ILTagArrayTag::new();
            t.mut_value().push(s);
            t.mut_value().push(body);
            let (r, b) = with_sink(snk, cap, plan, |w, _| t.serialize(w));
            let body = t.mut_value().pop().expect("body");
            (r, b, body)
        }
        Style::Dict => {
            let mut t = ILDictTag::new();
            t.insert("seq", s);
            t.insert("body", body);
            let (r, b) = with_sink(snk, cap, plan, |w, _| t.serialize(w));
            let body = t.mut_value().remove("body").expect("body");
            (r, b, body)
        }
    }
}

fn seq_of(t: &dyn ILTag) -> Option<u64> {
    tag_downcast_ref::<ILUInt64Tag>(t).map(|t| t.value())
}

/// What the node's application makes of a frame: number and payload, or why not.
fn read_frame(n: &Node, style: Style, b: &[u8]) -> Result<Option<(u64, Box<dyn ILTag>)>, ErrorKind> {
    with_source(pick_src(), b, Plan::benign(b.len()), |r, _| {
        let mut t = n.f.deserialize(r.r())?;
        Ok(match style {
            Style::Stream => {
                let body = n.f.deserialize(r.r())?;
                seq_of(t.as_ref()).map(|s| (s, body))
            }
            Style::Seq => (|| {
                let v = tag_downcast_mut::<ILTagSeqTag>(t.as_mut())?.mut_value();
                let body = v.pop()?;
                let s = seq_of(v.pop()?.as_ref())?;
                Some((s, body))
            })(),
            Style::Array => (|| {
                let v = tag_downcast_mut::<ILTagArrayTag>(t.as_mut())?.mut_value();
                let body = v.pop()?;
                let s = seq_of(v.pop()?.as_ref())?;
                Some((s, body))
            })(),
            Style::Dict => (|| {
                let v = tag_downcast_mut::<ILDictTag>(t.as_mut())?;
                let s = seq_of(v.get("seq")?)?;
                let body = v.mut_value().remove("body")?;
                Some((s, body))
            })(),
        })
    })
}

// ---------------------------------------------------------------------------------------------
// Nodes

/// A payload the node holds is what it should be for this node.
fn proper(n: &Node, t: &dyn ILTag, m: &MTag, what: &str) -> Res<()> {
    let b = enc(m);
    match Parser::new(&n.reg).tag(&b) {
        Ok((view, _)) => {
            same(t, &view, &n.reg, what)?;
            if covers(&n.reg, m) {
                ensure!(view == *m, "wrong-value", "{}: a node that knows every type sees {} instead of {}", what, view.short(), m.short());
            } else {
                core::probe("tag of unknown type held");
            }
        }
        Err(e) => return core::viol("unknown-accepted", format!("{}: a node that cannot know {} ({:?}) holds it", what, m.short(), e)),
    }
    ensure!(t.size() == b.len() as u64, "altered-in-transit", "{}: size {} for {} bytes", what, t.size(), b.len());
    same_bytes(&fresh_bytes(t, what)?, &b, "altered-in-transit", what)
}

fn store(n: &mut Node, seq: u64, t: &dyn ILTag) -> Res<()> {
    let mut w = VecWriter::new();
    let r = ILUInt64Tag::with_value(seq).serialize(&mut w).and_then(|_| t.serialize(&mut w));
    if let Err(e) = r {
        return core::viol("serialize-failed", format!("storing a received tag: {:?}", e));
    }
    n.disk.extend_from_slice(w.as_slice());
    Ok(())
}

/// Starts a node from what its disk holds; a torn tail is cut off.
fn start(n: &mut Node, tags: &[MTag], history: &str) -> Res<()> {
    n.have.clear();
    n.acked.clear();
    n.up = true;
    let data = n.disk.clone();
    let mut ext = vec![];
    let mut torn = false;
    {
        let mut r = ByteArrayReader::new(&data);
        let mut sc = RawTagScanner::new(&mut r);
        while (ext.last().map(|e: &il2_iltags::tags::raw::RawTagOffset| e.next_tag_offset()).unwrap_or(0) as usize) < data.len() {
            match sc.next_tag() {
                Ok(Some(e)) => ext.push(e),
                _ => {
                    torn = true;
                    break;
                }
            }
        }
    }
    core::eval(1);
    if torn {
        core::probe("torn record cut off");
    }
    let whole = ext.len() / 2 * 2;
    let end = if whole == 0 { 0 } else { ext[whole - 1].next_tag_offset() as usize };
    ensure!(end >= n.synced.min(data.len()), "record-lost", "a restarted node finds {} of {} synced bytes; {}", end, n.synced, history);
    n.disk.truncate(end);
    n.synced = end;
    for p in ext[..whole].chunks(2) {
        let s = match n.f.from_bytes(p[0].tag_slice(&data)) {
            Ok(t) => seq_of(t.as_ref()),
            Err(e) => return core::viol("record-lost", format!("a stored record number: {:?}; {}", e, history)),
        };
        let (s, m) = match s.and_then(|s| tags.get(s as usize).map(|m| (s, m))) {
            Some(x) => x,
            None => return core::viol("record-lost", format!("stored record number {:?}; {}", s, history)),
        };
        let b = p[1].tag_slice(&data);
        same_bytes(b, &enc(m), "altered-in-transit", "a stored record")?;
        ensure!(p[1].id() == m.id, "altered-in-transit", "a stored record scans as id {} instead of {}", p[1].id(), m.id);
        core::eval(1);
        let held = match (n.f.from_bytes(b), Parser::new(&n.reg).tag(b)) {
            (Ok(t), Ok(_)) => {
                proper(n, t.as_ref(), m, "a record read after a restart")?;
                Held::Live(t)
            }
            (Err(e), Err(PErr::Unknown)) => {
                ensure!(matches!(e, ErrorKind::UnknownTag), "wrong-error", "{:?} instead of UnknownTag for a stored {}", e, m.short());
                core::probe("stored record unreadable for this version");
                Held::Opaque(b.to_vec())
            }
            (r, want) => {
                return core::viol(
                    "wrong-value",
                    format!("a stored record {}: {:?}, expected {:?}; {}", m.short(), r.map(|t| t.id()), want.map(|x| x.0.short()), history),
                )
            }
        };
        n.have.insert(s, held);
    }
    Ok(())
}

fn crash(w: &mut World, i: usize) {
    core::fault("node crash");
    let n = &mut w.nodes[i];
    let tail = n.disk.len() - n.synced;
    if tail > 0 {
        core::fault("unsynced tail torn or lost");
        let keep = n.synced + choose(tail as u64 + 1) as usize;
        n.disk.truncate(keep);
    }
    n.up = false;
    n.have.clear();
    n.acked.clear();
}

fn send(w: &mut World, from: usize, to: usize, seq: u64) -> Res<()> {
    let m = w.tags[seq as usize].clone();
    let body = enc(&m);
    let want = frame_bytes(w.style, seq, &body);
    let style = w.style;
    let breaks = w.faults && chance(1, 12);
    let n = &mut w.nodes[from];
    let held = match n.have.remove(&seq) {
        Some(h) => h,
        None => return Ok(()),
    };
    let mut plan = Plan::benign(want.len());
    if breaks {
        plan.fail = Some(Fail { at: choose(want.len() as u64), how: FailHow::Err(pick(&HARD_KINDS)), sticky: true, partial: true, id: 20 });
    }
    let was_live = matches!(held, Held::Live(_));
    let mut opaque = vec![];
    let t = match held {
        Held::Live(t) if chance(1, 8) => match util::iltag_clone_with_factory(&n.f, t.as_ref()) {
            Ok(c) => {
                ensure!(util::iltag_are_equal(c.as_ref(), t.as_ref()), "altered-in-transit", "a copy of {} is not equal to it", m.short());
                c
            }
            Err(e) => return core::viol("decode-failed", format!("copying a tag that was received: {:?} for {}", e, m.short())),
        },
        Held::Live(t) => t,
        Held::Opaque(b) => {
            // passed on without being understood
            let mut r = ByteArrayReader::new(&b);
            let e = match RawTagScanner::new(&mut r).next_tag() {
                Ok(Some(e)) => e,
                x => return core::viol("altered-in-transit", format!("scanning {}: {:?}", m.short(), x.map(|_| ()))),
            };
            let t: Box<dyn ILTag> = Box::new(ILRawTag::with_value(e.id(), e.value_slice(&b)));
            opaque = b;
            core::probe("unreadable record passed on");
            t
        }
    };
    let (r, got, t) = write_frame(style, seq, t, want.len(), plan);
    n.have.insert(seq, if was_live { Held::Live(t) } else { Held::Opaque(opaque) });
    core::eval(1);
    if breaks {
        ensure!(r.is_err(), "send-succeeded", "sending over a broken connection: Ok");
        core::fault("connection broken while sending");
        ensure!(want.starts_with(&got), "altered-in-transit", "a broken connection carried {} which is no prefix of {}", hex(&got), hex(&want));
        w.net.push(Msg { from, to, ack: false, bytes: got, cut: true });
    } else {
        ensure!(r.is_ok(), "serialize-failed", "node {} sending {}: {:?}; {}", from, m.short(), r, w.history);
        same_bytes(&got, &want, "altered-in-transit", &format!("node {} sending {}", from, m.short()))?;
        w.net.push(Msg { from, to, ack: false, bytes: got, cut: false });
    }
    Ok(())
}

fn send_ack(w: &mut World, from: usize, to: usize, seq: u64) -> Res<()> {
    let t = ILILInt64Tag::with_value(seq);
    let bytes = fresh_bytes(&t, "an acknowledgement")?;
    w.net.push(Msg { from, to, ack: true, bytes, cut: false });
    Ok(())
}

fn deliver(w: &mut World, msg: Msg) -> Res<()> {
    core::advance(range(10_000, 50_000_000));
    let key = (msg.from.min(msg.to), msg.from.max(msg.to));
    if !w.nodes[msg.to].up || w.down.contains(&key) {
        core::fault(if w.down.contains(&key) { "message lost in a partition" } else { "message to a node that is down" });
        return Ok(());
    }
    core::ev(0xC2, (msg.from * 16 + msg.to) as u64, core::digest(&msg.bytes));
    let style = w.style;
    let n = &mut w.nodes[msg.to];
    if msg.ack {
        match n.f.from_bytes(&msg.bytes) {
            Ok(t) => match tag_downcast_ref::<ILILInt64Tag>(t.as_ref()) {
                Some(t) => {
                    n.acked.insert((t.value(), msg.from));
                }
                None => return core::viol("wrong-type", "an acknowledgement decoded as another type".into()),
            },
            Err(e) => return core::viol("decode-failed", format!("an acknowledgement: {:?}", e)),
        }
        return Ok(());
    }
    let disk = n.disk.len();
    let r = read_frame(n, style, &msg.bytes);
    core::eval(1);
    if msg.cut {
        ensure!(r.is_err(), "tag-from-nothing", "a frame that was cut after {} bytes was accepted: {}", msg.bytes.len(), hex(&msg.bytes));
        return Ok(());
    }
    // what this node should make of it
    let mut p = Parser::new(&n.reg);
    let (first, used) = match p.tag(&msg.bytes) {
        Ok(x) => (Ok(x.0), x.1),
        Err(e) => (Err(e), 0),
    };
    let want = match (style, first) {
        (_, Err(e)) => Err(e),
        (Style::Stream, Ok(_)) => p.tag(&msg.bytes[used..]).map(|x| x.0),
        (_, Ok(m)) => Ok(m),
    };
    match (r, want) {
        (Ok(Some((seq, t))), Ok(_)) => {
            let m = match w.tags.get(seq as usize) {
                Some(m) => m.clone(),
                None => return core::viol("wrong-value", format!("a frame with number {} arrived", seq)),
            };
            proper(&w.nodes[msg.to], t.as_ref(), &m, &format!("node {} received {} from {}", msg.to, m.short(), msg.from))?;
            if !covers(&w.nodes[msg.to].reg, &m) {
                core::nontrivial();
            }
            let n = &mut w.nodes[msg.to];
            match n.have.get(&seq) {
                Some(Held::Live(old)) => {
                    core::probe("same tag received again");
                    ensure!(util::iltag_are_equal(old.as_ref(), t.as_ref()), "altered-in-transit", "{} received twice, not equal to itself", m.short());
                }
                Some(Held::Opaque(_)) => return core::viol("wrong-value", "a node reads what it could not read from its own disk".into()),
                None => {
                    store(n, seq, t.as_ref())?;
                    n.have.insert(seq, Held::Live(t));
                }
            }
            if !w.faults || chance(3, 4) {
                // durable, then acknowledged
                n.synced = n.disk.len();
                send_ack(w, msg.to, msg.from, seq)?;
            }
        }
        (Err(e), Err(PErr::Unknown)) => {
            core::probe("refused by a strict node");
            core::nontrivial();
            ensure!(matches!(e, ErrorKind::UnknownTag), "wrong-error", "{:?} instead of UnknownTag at node {}; {}", e, msg.to, w.history);
            ensure!(w.nodes[msg.to].disk.len() == disk, "residue", "a refused frame was stored");
        }
        (r, want) => {
            return core::viol(
                "wrong-value",
                format!("node {} makes {:?} of a frame instead of {:?}: {}; {}", msg.to, r.map(|x| x.map(|x| x.0)), want.map(|m| m.short()), hex(&msg.bytes), w.history),
            )
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn run() -> Res<()> {
    let mut all = gen_reg();
    for _ in 0..choose(3) {
        let id = pick(&ID_POOL);
        if id > 15 && std_kind(id).is_none() {
            all.map.insert(id, pick(&[Kind::Payload, Kind::Seq, Kind::TagArr, Kind::Dict, Kind::Str, Kind::IntArr, Kind::Version, Kind::Payload]));
        }
    }
    let style = pick(&[Style::Stream, Style::Seq, Style::Array, Style::Dict]);
    let count = 2 + choose(4) as usize;
    let mut links = BTreeSet::new();
    for i in 1..count {
        // connected
        links.insert((choose(i as u64) as usize, i));
    }
    for _ in 0..choose(3) {
        let (a, b) = (choose(count as u64) as usize, choose(count as u64) as usize);
        if a != b {
            links.insert((a.min(b), a.max(b)));
        }
    }
    let mut nodes = vec![];
    for i in 0..count {
        let reg = if i == 0 { all.clone() } else { gen_vocab(&all, style) };
        let f = make_factory(&reg);
        nodes.push(Node { reg, f, disk: vec![], synced: 0, have: BTreeMap::new(), acked: BTreeSet::new(), up: true });
    }
    let mut w = World { all, nodes, links, down: BTreeSet::new(), net: vec![], tags: vec![], style, faults: true, history: format!("{} nodes, {:?}", count, style) };

    let chaos = 10 + choose(if chance(1, 30) { 250 } else { 60 });
    for _ in 0..chaos {
        event(&mut w)?;
    }
    settle(&mut w)
}

fn originate(w: &mut World) -> Res<()> {
    let m = {
        let customs = w.all.customs();
        let mut g = Gen::sized(&w.all, &[20, 60, 120, 300], 4);
        if !customs.is_empty() && chance(1, 2) {
            let (id, k) = pick(&customs);
            g.of(id, k, 3)
        } else {
            g.tag()
        }
    };
    let able: Vec<usize> = (0..w.nodes.len()).filter(|i| w.nodes[*i].up && covers(&w.nodes[*i].reg, &m)).collect();
    if able.is_empty() || enc(&m).len() > 30_000 {
        return Ok(());
    }
    let i = pick(&able);
    let seq = w.tags.len() as u64;
    let t = build(&m);
    note(w, format!("node {} originates {}: {}", i, seq, m.short()));
    w.tags.push(m);
    let n = &mut w.nodes[i];
    store(n, seq, t.as_ref())?;
    n.synced = n.disk.len();
    n.have.insert(seq, Held::Live(t));
    Ok(())
}

/// One node's timer: everything not acknowledged goes out again.
fn timer(w: &mut World, i: usize, all: bool) -> Res<()> {
    if !w.nodes[i].up {
        return Ok(());
    }
    core::advance(range(1_000_000, 200_000_000));
    let seqs: Vec<u64> = w.nodes[i].have.keys().cloned().collect();
    for s in seqs {
        for j in 0..w.nodes.len() {
            if j != i && linked(w, i, j) && !w.nodes[i].acked.contains(&(s, j)) && (all || (chance(1, 2) && w.net.len() < 40)) {
                send(w, i, j, s)?;
            }
        }
    }
    Ok(())
}

fn event(w: &mut World) -> Res<()> {
    let i = choose(w.nodes.len() as u64) as usize;
    let op = weighted(&[10, 8, 3, 2, 2, 2, 2, 2, 1]);
    match op {
        0 => {
            // whichever message comes first
            if !w.net.is_empty() {
                let k = choose(w.net.len() as u64) as usize;
                if k > 0 {
                    core::fault("messages reordered");
                }
                let msg = w.net.remove(k);
                deliver(w, msg)?;
            }
        }
        1 => timer(w, i, false)?,
        2 => {
            if w.tags.len() < 6 {
                originate(w)?;
            }
        }
        3 => {
            if !w.net.is_empty() {
                let k = choose(w.net.len() as u64) as usize;
                let m = w.net.remove(k);
                core::fault("message lost");
                core::nontrivial();
                drop(m);
            }
        }
        4 => {
            if !w.net.is_empty() && w.net.len() < 60 {
                let m = pick(&w.net);
                core::fault("message duplicated");
                w.net.push(m);
            }
        }
        5 => {
            if !w.net.is_empty() {
                // cut on the way
                let k = choose(w.net.len() as u64) as usize;
                let m = &mut w.net[k];
                if !m.ack && !m.bytes.is_empty() {
                    let at = choose(m.bytes.len() as u64) as usize;
                    m.bytes.truncate(at);
                    m.cut = true;
                    core::fault("message cut short");
                }
            }
        }
        6 => {
            if w.nodes[i].up {
                if chance(1, 2) {
                    crash(w, i);
                    core::nontrivial();
                    note(w, format!("node {} crashes", i));
                }
            } else {
                restart(w, i)?;
            }
        }
        7 => {
            let l: Vec<_> = w.links.iter().cloned().collect();
            let k = pick(&l);
            if !w.down.remove(&k) {
                core::fault("link down");
                w.down.insert(k);
            }
        }
        _ => {
            // another version takes over
            crash(w, i);
            restart(w, i)?;
        }
    }
    Ok(())
}

fn restart(w: &mut World, i: usize) -> Res<()> {
    if i > 0 && chance(1, 2) {
        let reg = if chance(1, 4) { w.all.clone() } else { gen_vocab(&w.all, w.style) };
        w.nodes[i].f = make_factory(&reg);
        w.nodes[i].reg = reg;
        core::probe("node restarted as another version");
        note(w, format!("node {} restarts, strict {}", i, w.nodes[i].reg.strict));
    }
    let h = w.history.clone();
    let World { nodes, tags, .. } = w;
    start(&mut nodes[i], tags, &h)
}

/// The faults stop: everything arrives within as many rounds as the network is wide.
fn settle(w: &mut World) -> Res<()> {
    w.faults = false;
    w.down.clear();
    for i in 0..w.nodes.len() {
        if !w.nodes[i].up {
            restart(w, i)?;
        }
    }
    let n = w.nodes.len();
    // who should end up with what
    let mut want: Vec<BTreeSet<u64>> = w.nodes.iter().map(|x| x.have.keys().cloned().collect()).collect();
    loop {
        let mut more = false;
        for a in 0..n {
            for b in 0..n {
                if a == b || !linked(w, a, b) {
                    continue;
                }
                for s in want[a].clone() {
                    let ok = Parser::new(&w.nodes[b].reg).tag(&enc(&w.tags[s as usize])).is_ok();
                    if ok && want[b].insert(s) {
                        more = true;
                    }
                }
            }
        }
        if !more {
            break;
        }
    }
    // frames still on their way may be the last trace of a tag lost in a crash
    while !w.net.is_empty() {
        let k = choose(w.net.len() as u64) as usize;
        let m = w.net.swap_remove(k);
        deliver(w, m)?;
    }
    for _ in 0..n {
        for i in 0..n {
            timer(w, i, true)?;
        }
        while !w.net.is_empty() {
            let k = if w.net.len() > 64 { 0 } else { choose(w.net.len() as u64) as usize };
            let m = w.net.swap_remove(k);
            deliver(w, m)?;
        }
    }
    for i in 0..n {
        let x = &w.nodes[i];
        for s in &want[i] {
            core::eval(1);
            ensure!(x.have.contains_key(s), "never-arrives", "node {} has no tag {} {} rounds after the last fault: {}; {}", i, s, n, w.tags[*s as usize].short(), w.history);
        }
        for (s, h) in &x.have {
            let m = &w.tags[*s as usize];
            match h {
                Held::Live(t) => proper(x, t.as_ref(), m, &format!("node {} in the end", i))?,
                Held::Opaque(b) => same_bytes(b, &enc(m), "altered-in-transit", &format!("node {} in the end", i))?,
            }
        }
    }
    // in the end every node learns every type: what it kept is the original
    for i in 0..n {
        w.nodes[i].synced = w.nodes[i].disk.len();
        let before: Vec<u64> = w.nodes[i].have.keys().cloned().collect();
        w.nodes[i].reg = w.all.clone();
        w.nodes[i].f = make_factory(&w.all);
        let h = w.history.clone();
        let World { nodes, tags, .. } = w;
        start(&mut nodes[i], tags, &h)?;
        let x = &nodes[i];
        core::eval(1);
        ensure!(x.have.keys().cloned().collect::<Vec<_>>() == before, "record-lost", "node {} kept {:?} and finds {:?} as the newest version", i, before, x.have.keys());
        for (s, h) in &x.have {
            match h {
                Held::Live(t) => same(t.as_ref(), &tags[*s as usize], &x.reg, "read by the newest version")?,
                Held::Opaque(_) => return core::viol("wrong-value", format!("the newest version cannot read {}", tags[*s as usize].short())),
            }
        }
    }
    core::gauge("nodes", n as u64);
    core::gauge("tags originated", w.tags.len() as u64);
    sample(|| w.history.clone());
    Ok(())
}
