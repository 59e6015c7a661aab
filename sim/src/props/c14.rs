//! A tag journal recovers every acknowledged record after any crash.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::tr;
use il2_iltags::io::array::{ByteArrayReader, VecWriter};
use il2_iltags::io::std_io::SizedSeek;
use il2_iltags::io::{ReadReader, WriteWriter};
use il2_iltags::tags::raw::RawTagScanner;
use std::io::{BufReader, BufWriter, Cursor, Seek, SeekFrom, Write};

pub const RULE: &str = "one evaluation judges one recovery (or lookup) of the journal against the records appended and made durable; a history is non-trivial if a crash, torn tail or I/O fault happened";

#[derive(Clone)]
struct Rec {
    tag: MTag,
    bytes: Vec<u8>,
    /// appended successfully and synced
    durable: bool,
}

/// The simulated disk file: what the system sees and what survives a crash.
struct Disk {
    data: Vec<u8>,
    synced: usize,
    /// size at which the disk is full
    full: Option<u64>,
}

struct World {
    reg: Reg,
    disk: Disk,
    recs: Vec<Rec>,
    crashes: u64,
    history: String,
}

/// What a recovery found.
struct Found {
    tags: Vec<MTag>,
    /// end of the last record
    end: u64,
    /// the source reported a fault of its own
    faulted: bool,
    /// an error followed the last record
    error: bool,
}

impl World {
    fn end(&self) -> usize {
        self.recs.iter().map(|r| r.bytes.len()).sum()
    }
    fn tail(&self) -> usize {
        self.disk.data.len() - self.end()
    }
    fn log(&mut self, s: String) {
        tr!("{}", s);
        if self.history.len() < 1500 {
            self.history += &s;
            self.history += "; ";
        }
    }
    fn bounds(&self) -> Vec<(u64, u64)> {
        let mut v = Vec::new();
        let mut at = 0;
        for r in &self.recs {
            v.push((at, at + r.bytes.len() as u64));
            at += r.bytes.len() as u64;
        }
        v
    }
}

pub fn run() -> Res<()> {
    let mut w = World {
        reg: gen_reg(),
        disk: Disk { data: Vec::new(), synced: 0, full: None },
        recs: Vec::new(),
        crashes: 0,
        history: String::new(),
    };
    let lives = 1 + choose(if chance(1, 60) { 30 } else { 5 });
    for life in 0..=lives {
        restart(&mut w)?;
        if life == lives {
            break;
        }
        let ops = 1 + choose(if chance(1, 60) { 80 } else { 7 });
        let mut lost_power = false;
        for _ in 0..ops {
            core::advance(1_000_000);
            match weighted(&[10, 4, 3, 2, 1]) {
                0 => lost_power = append(&mut w)?,
                1 => sync(&mut w),
                2 => lookup(&w)?,
                3 => restart(&mut w)?,
                _ => compact(&mut w)?,
            }
            if lost_power {
                break;
            }
        }
        crash(&mut w);
    }
    sample(|| w.history.clone());
    Ok(())
}

fn sync(w: &mut World) {
    if chance(1, 8) {
        core::fault("failed sync");
        w.log("sync failed".into());
        return;
    }
    w.disk.synced = w.disk.data.len();
    for r in w.recs.iter_mut() {
        r.durable = true;
    }
    w.log(format!("sync at {}", w.disk.synced));
}

/// Power is lost: of the bytes not synced, any prefix may survive.
fn crash(w: &mut World) {
    core::fault("crash");
    w.crashes += 1;
    let unsynced = w.disk.data.len() - w.disk.synced;
    let keep = if unsynced > 0 {
        core::fault("unsynced tail lost or torn");
        // near record boundaries, or anywhere
        let marks: Vec<usize> = w.bounds().iter().map(|b| b.1 as usize).filter(|e| *e > w.disk.synced).map(|e| e - w.disk.synced).collect();
        cut_pos(unsynced, &marks) as usize
    } else {
        0
    };
    let len = w.disk.synced + keep;
    w.disk.data.truncate(len);
    w.disk.synced = len;
    w.disk.full = None;
    let mut at = 0;
    let mut n = 0;
    for r in &w.recs {
        if at + r.bytes.len() > len {
            break;
        }
        at += r.bytes.len();
        n += 1;
    }
    // an acknowledged and durable record is never among the lost: the simulated disk keeps its promise
    assert!(w.recs[n..].iter().all(|r| !r.durable), "simulated disk lost synced bytes");
    w.recs.truncate(n);
    w.log(format!("crash: {} bytes survive, {} records, {} torn bytes", len, n, w.tail()));
    core::ev(0x61, len as u64, n as u64);
}

/// Opens the journal after a start of the process: recovers, checks and cuts off the torn tail.
fn restart(w: &mut World) -> Res<()> {
    loop {
        let faulty = chance(1, 4);
        let f = recover(w, faulty)?;
        judge(w, &f)?;
        if !f.faulted {
            ensure!(
                f.tags.len() == w.recs.len(),
                "record-lost",
                "{} of {} records recovered from {} bytes; {}",
                f.tags.len(),
                w.recs.len(),
                w.disk.data.len(),
                w.history
            );
            ensure!(
                f.end == w.end() as u64,
                "wrong-end",
                "the journal ends at {} but recovery says {}; {}",
                w.end(),
                f.end,
                w.history
            );
            ensure!(f.error || w.tail() == 0, "torn-tail-unnoticed", "{} torn bytes at the end were not reported; {}", w.tail(), w.history);
            if w.tail() > 0 {
                core::probe("recovered with a torn tail");
            }
            // cut off the torn tail (sometimes the process dies before)
            if w.tail() > 0 && chance(1, 6) {
                core::fault("crash during recovery");
                continue;
            }
            w.disk.data.truncate(f.end as usize);
            w.disk.synced = w.disk.synced.min(w.disk.data.len());
            if chance(1, 2) {
                w.disk.synced = w.disk.data.len();
                for r in w.recs.iter_mut() {
                    r.durable = true;
                }
            }
            w.log(format!("recovered {} records, {} bytes", w.recs.len(), w.disk.data.len()));
            return Ok(());
        }
        // the medium failed while recovering: try again
    }
}

fn judge(w: &World, f: &Found) -> Res<()> {
    core::eval(1);
    ensure!(
        f.tags.len() <= w.recs.len(),
        "torn-tail-accepted",
        "{} records recovered, only {} are complete ({} torn bytes follow): {}; {}",
        f.tags.len(),
        w.recs.len(),
        w.tail(),
        f.tags[w.recs.len()].short(),
        w.history
    );
    for (i, (g, r)) in f.tags.iter().zip(&w.recs).enumerate() {
        ensure!(
            *g == r.tag,
            "record-changed",
            "record {} is {} instead of {}; {}",
            i,
            g.short(),
            r.tag.short(),
            w.history
        );
    }
    let end = w.recs[..f.tags.len()].iter().map(|r| r.bytes.len() as u64).sum::<u64>();
    ensure!(f.end == end, "wrong-end", "after {} records recovery stands at {} instead of {}", f.tags.len(), f.end, end);
    Ok(())
}

fn disk_plan(len: usize, faulty: bool) -> Plan {
    let mut p = Plan::benign(len);
    if faulty {
        p.fail = Some(Fail {
            at: choose(len as u64 + 1),
            how: FailHow::Err(pick(&HARD_KINDS)),
            sticky: chance(1, 2),
            partial: chance(1, 2),
            id: 61,
        });
        if chance(1, 4) {
            p.fail = None;
            p.seek_fail = Some((choose(40), chance(1, 2)));
        }
    }
    p
}

fn to_model(t: Box<dyn ILTag>, reg: &Reg) -> Res<MTag> {
    match extract(t.as_ref(), reg) {
        Ok(m) => Ok(m),
        Err(e) => core::viol("wrong-type", e),
    }
}

fn recover(w: &World, faulty: bool) -> Res<Found> {
    let f = make_factory(&w.reg);
    let d = &w.disk.data;
    let plan = disk_plan(d.len(), faulty);
    let st = stream(d.clone(), plan);
    let max = w.recs.len() + 2;
    let way = choose(8);
    tr!("recovery {} of {} bytes", way, d.len());
    core::ev(0x60, way, d.len() as u64);
    let mut out = Found { tags: Vec::new(), end: 0, faulted: false, error: false };
    match way {
        0..=3 => {
            // scan the extents, then decode the slices
            let mut ext = Vec::new();
            macro_rules! scan {
                ($r:expr) => {{
                    let mut r = $r;
                    let mut sc = RawTagScanner::new(&mut r);
                    while ext.len() < max {
                        match sc.next_tag() {
                            Ok(Some(e)) => ext.push(e),
                            Ok(None) => break,
                            Err(_) => {
                                out.error = true;
                                break;
                            }
                        }
                    }
                }};
            }
            match way {
                0 => scan!(RSStream(st.clone())),
                1 => {
                    let mut s = RStream(st.clone());
                    scan!(ReadReader::new(&mut s))
                }
                2 => match choose(2) {
                    0 => scan!(ByteArrayReader::new(d)),
                    _ => scan!(Cursor::new(d.clone())),
                },
                _ => scan!(BufReader::with_capacity(pick(&[1usize, 3, 8, 64, 8192]), RSStream(st.clone()))),
            }
            out.faulted = st.borrow().fired.is_some();
            for e in &ext {
                ensure!(
                    e.offset() == out.end,
                    "wrong-extent",
                    "extent at {} after one that ended at {}; {}",
                    e.offset(),
                    out.end,
                    w.history
                );
                ensure!(
                    e.next_tag_offset() <= d.len() as u64,
                    "torn-tail-accepted",
                    "extent [{}, {}) of {} bytes; {}",
                    e.offset(),
                    e.next_tag_offset(),
                    d.len(),
                    w.history
                );
                out.end = e.next_tag_offset();
                let t = decode_slice(&f, e.tag_slice(d), "record found by the scanner")?;
                out.tags.push(to_model(t, &w.reg)?);
            }
        }
        4 | 5 => {
            // decode one after the other
            let src = pick_src();
            let plan = st.borrow().plan.clone();
            let mut res = Ok(());
            with_source(src, d, plan, |s, st| {
                while out.tags.len() < max {
                    match f.deserialize(s.r()) {
                        Ok(t) => match to_model(t, &w.reg) {
                            Ok(m) => {
                                out.end += enc(&m).len() as u64;
                                out.tags.push(m)
                            }
                            Err(e) => {
                                res = Err(e);
                                return;
                            }
                        },
                        Err(_) => {
                            out.error = true;
                            break;
                        }
                    }
                    if let Some(p) = s.pos() {
                        if p != out.end {
                            res = core::viol("wrong-extent", format!("decoding {} records consumed {} bytes instead of {}", out.tags.len(), p, out.end));
                            return;
                        }
                    }
                }
                if let Some(st) = st {
                    out.faulted = st.borrow().fired.is_some();
                }
            });
            res?;
            // the atomic user reader reports the end of its data as a fault of its own
            if src == SrcKind::UserAtomic && !faulty {
                out.faulted = false;
            }
        }
        6 => {
            // as long as bytes are available
            let mut s = RSStream(st.clone());
            let r = (|| -> Result<(), String> {
                while SizedSeek::available(&mut s).map_err(|e| format!("{:?}", e))? > 0 {
                    let t = f.deserialize(&mut s).map_err(|e| format!("{:?}", e))?;
                    out.tags.push(to_model(t, &w.reg).map_err(|e| e.msg)?);
                    out.end = out.tags.iter().map(|m| enc(m).len() as u64).sum();
                    let p = SizedSeek::offset(&mut s).map_err(|e| format!("{:?}", e))?;
                    if p != out.end || out.tags.len() > max {
                        core::pending("wrong-extent", format!("the stream stands at {} after {} records of {} bytes", p, out.tags.len(), out.end));
                        break;
                    }
                }
                Ok(())
            })();
            out.error = r.is_err();
            out.faulted = st.borrow().fired.is_some();
        }
        _ => {
            // scan and jump back to decode each record through the same handle
            let mut s = RSStream(st.clone());
            let mut stop = false;
            while !stop && out.tags.len() < max {
                let from = out.end;
                if s.seek(SeekFrom::Start(from)).is_err() {
                    out.error = true;
                    break;
                }
                let e = match RawTagScanner::new(&mut s).next_tag() {
                    Ok(Some(e)) => e,
                    _ => {
                        out.error = true;
                        break;
                    }
                };
                if s.seek(SeekFrom::Start(from + e.offset())).is_err() {
                    out.error = true;
                    break;
                }
                match f.deserialize(&mut s) {
                    Ok(t) => {
                        let m = to_model(t, &w.reg)?;
                        let n = enc(&m).len() as u64;
                        ensure!(
                            e.offset() == 0 && e.size() == n,
                            "wrong-extent",
                            "the scanner reports {}+{} for a record of {} bytes; {}",
                            e.offset(),
                            e.size(),
                            n,
                            w.history
                        );
                        out.end += n;
                        out.tags.push(m);
                    }
                    Err(_) => {
                        out.error = true;
                        stop = true;
                    }
                }
            }
            out.faulted = st.borrow().fired.is_some();
        }
    }
    Ok(out)
}

/// Appends one or more records; returns whether the power went off meanwhile.
fn append(w: &mut World) -> Res<bool> {
    let n = 1 + choose(4);
    let mut batch: Vec<Rec> = Vec::new();
    for _ in 0..n {
        let mut g = Gen::sized(&w.reg, &[20, 60, 60, 200, 800], 3);
        let tag = g.tag();
        let bytes = enc(&tag);
        batch.push(Rec { tag, bytes, durable: false });
    }
    let total: usize = batch.iter().map(|r| r.bytes.len()).sum();
    let start = w.disk.data.len() as u64;
    let mut plan = Plan::benign(total);
    if chance(1, 6) {
        w.disk.full = Some(start + choose(total as u64 + 1));
    }
    if let Some(f) = w.disk.full {
        core::fault("disk full");
        plan.fail = Some(Fail { at: f.max(start), how: if chance(1, 2) { FailHow::Zero } else { FailHow::Err(std::io::ErrorKind::Other) }, sticky: true, partial: true, id: 62 });
    }
    let power = chance(1, 6);
    if power {
        core::fault("power lost while appending");
        plan.fail = Some(Fail { at: start + choose(total as u64 + 1), how: FailHow::Err(std::io::ErrorKind::Other), sticky: true, partial: chance(1, 2), id: 63 });
    } else if plan.fail.is_none() && chance(1, 6) {
        plan.fail = Some(Fail { at: start + choose(total as u64 + 1), how: FailHow::Err(pick(&HARD_KINDS)), sticky: false, partial: chance(1, 2), id: 64 });
    }
    let way = choose(7);
    tr!("append {} records, {} bytes at {}, way {}, {:?}", n, total, start, way, plan);
    let st = stream(w.disk.data.clone(), plan);
    st.borrow_mut().pos = 0;
    let mut s = RWSStream(st.clone());
    // find the end with the library
    let end = match SizedSeek::len(&mut s) {
        Ok(e) => e,
        Err(e) => return core::viol("no-length", format!("length of the journal: {:?}", e)),
    };
    ensure!(end == start && st.borrow().pos == 0, "wrong-length", "the journal has {} bytes, len() says {}", start, end);
    let _ = s.seek(SeekFrom::Start(end));
    let ok = write_batch(&batch, way, &st, &mut s)?;
    let after = st.borrow().data.clone();
    let fired = st.borrow().fired.is_some();
    drop(s);
    // whatever happened, the file holds what it held plus an in-order prefix of the new records
    let mut want = w.disk.data.clone();
    for r in &batch {
        want.extend_from_slice(&r.bytes);
    }
    ensure!(
        after.len() >= w.disk.data.len() && after.len() <= want.len() && want[..after.len()] == after[..],
        "journal-damaged",
        "appending {} (way {}) left something else than a prefix: {}; {}",
        n,
        way,
        first_diff(&after, &want),
        w.history
    );
    ensure!(
        !ok || after.len() == want.len(),
        "false-acknowledgement",
        "appending succeeded but {} of {} bytes are there (way {}); {}",
        after.len() - start as usize,
        total,
        way,
        w.history
    );
    ensure!(ok || fired, "append-failed", "appending failed on a healthy disk (way {}); {}", way, w.history);
    w.disk.data = after;
    let mut at = start as usize;
    for r in batch {
        at += r.bytes.len();
        if at <= w.disk.data.len() {
            w.recs.push(r);
        } else {
            break;
        }
    }
    w.log(format!("append {} records: {}, {} bytes, {} torn", n, if ok { "ok" } else { "failed" }, w.disk.data.len(), w.tail()));
    if ok {
        return Ok(false);
    }
    if power {
        return Ok(true);
    }
    // the application notices the error: it cuts the incomplete record off and goes on
    if w.disk.full.is_some() && chance(1, 2) {
        w.disk.full = None;
    }
    if chance(1, 2) {
        let e = w.end();
        w.disk.data.truncate(e);
        w.disk.synced = w.disk.synced.min(e);
    } else {
        restart(w)?;
    }
    Ok(false)
}

fn write_batch(batch: &[Rec], way: u64, st: &St, s: &mut RWSStream) -> Res<bool> {
    let reals: Vec<Box<dyn ILTag>> = batch.iter().map(|r| build(&r.tag)).collect();
    for (t, r) in reals.iter().zip(batch) {
        ensure!(
            t.size() == r.bytes.len() as u64,
            "wrong-size",
            "size() {} for a record of {} bytes: {}",
            t.size(),
            r.bytes.len(),
            r.tag.short()
        );
    }
    Ok(match way {
        0 => reals.iter().all(|t| t.serialize(s).is_ok()),
        1 => {
            let mut w = WriteWriter::new(s);
            reals.iter().all(|t| t.serialize(&mut w).is_ok())
        }
        2 => {
            let mut b = BufWriter::with_capacity(pick(&[1usize, 5, 16, 64, 8192]), WSStream(st.clone()));
            let ok = reals.iter().all(|t| t.serialize(&mut b).is_ok());
            let ok = ok && b.flush().is_ok();
            let _ = b.into_parts();
            ok
        }
        3 => {
            // whole records from memory
            reals.iter().all(|t| match t.to_bytes() {
                Ok(b) => Write::write_all(s, &b).is_ok(),
                Err(_) => false,
            })
        }
        4 => {
            let mut v = VecWriter::new();
            let ok = reals.iter().all(|t| t.serialize(&mut v).is_ok());
            let b: Vec<u8> = v.into();
            ok && Write::write_all(s, &b).is_ok()
        }
        5 => {
            let mut b = BufWriter::with_capacity(pick(&[1usize, 5, 16, 64, 8192]), WStream(st.clone()));
            let ok = {
                let mut w = WriteWriter::new(&mut b);
                reals.iter().all(|t| t.serialize(&mut w).is_ok())
            };
            let ok = ok && b.flush().is_ok();
            let _ = b.into_parts();
            ok
        }
        _ => {
            let mut w = SimWriter(st.clone());
            reals.iter().all(|t| t.serialize(&mut w).is_ok())
        }
    })
}

/// Reads records at random through the extents of a scan.
fn lookup(w: &World) -> Res<()> {
    if w.recs.is_empty() {
        return Ok(());
    }
    let f = make_factory(&w.reg);
    let st = stream(w.disk.data.clone(), Plan::benign(w.disk.data.len()));
    let mut s = RSStream(st.clone());
    let mut ext = Vec::new();
    {
        let mut sc = RawTagScanner::new(&mut s);
        for _ in 0..w.recs.len() {
            match sc.next_tag() {
                Ok(Some(e)) => ext.push(e),
                r => return core::viol("record-lost", format!("scanning stops after {} of {} records: {:?}", ext.len(), w.recs.len(), r.err())),
            }
        }
    }
    for _ in 0..1 + choose(4) {
        let i = choose(ext.len() as u64) as usize;
        let (a, b) = w.bounds()[i];
        core::eval(1);
        ensure!(
            (ext[i].offset(), ext[i].next_tag_offset()) == (a, b) && ext[i].size() == b - a && ext[i].id() == w.recs[i].tag.id,
            "wrong-extent",
            "record {} with id {} lies at [{}, {}), the scanner says id {} at [{}, {})",
            i,
            w.recs[i].tag.id,
            a,
            b,
            ext[i].id(),
            ext[i].offset(),
            ext[i].next_tag_offset()
        );
        let _ = s.seek(SeekFrom::Start(ext[i].offset()));
        match f.deserialize(&mut s) {
            Ok(t) => same(t.as_ref(), &w.recs[i].tag, &w.reg, "record read at its offset")?,
            Err(e) => return core::viol("record-lost", format!("record {} at {}: {:?}", i, a, e)),
        }
        let left = SizedSeek::available(&mut s);
        ensure!(
            matches!(left, Ok(n) if n == w.disk.data.len() as u64 - b),
            "wrong-extent",
            "{:?} bytes left after record {} which ends at {} of {}",
            left.ok(),
            i,
            b,
            w.disk.data.len()
        );
        // value read separately
        let vs = ext[i].value_slice(&w.disk.data);
        same_bytes(vs, &enc_value(&w.recs[i].tag), "wrong-extent", "value slice of a record")?;
    }
    Ok(())
}

/// Copies the records still wanted to a new file that replaces the old one atomically once synced.
fn compact(w: &mut World) -> Res<()> {
    if w.tail() > 0 {
        return Ok(());
    }
    let f = make_factory(&w.reg);
    let drop = choose(w.recs.len() as u64 + 1) as usize;
    let keep: Vec<Rec> = w.recs[drop..].to_vec();
    let total: usize = keep.iter().map(|r| r.bytes.len()).sum();
    let mut plan = Plan::benign(total);
    if chance(1, 3) {
        plan.fail = Some(Fail { at: choose(total as u64 + 1), how: FailHow::Err(pick(&HARD_KINDS)), sticky: true, partial: true, id: 65 });
    }
    let st = stream(Vec::new(), plan);
    let mut src = Cursor::new(w.disk.data.clone());
    let mut ok = true;
    {
        let mut dst = WSStream(st.clone());
        for i in 0..w.recs.len() {
            let t = match f.deserialize(&mut src) {
                Ok(t) => t,
                Err(e) => return core::viol("record-lost", format!("copying record {}: {:?}; {}", i, e, w.history)),
            };
            if i >= drop && t.serialize(&mut dst).is_err() {
                ok = false;
                break;
            }
        }
    }
    let fired = st.borrow().fired.is_some();
    ensure!(ok || fired, "append-failed", "copying records failed on a healthy disk");
    if !ok || chance(1, 4) {
        // given up or crashed before the switch: the old file stays
        w.log("compaction given up".into());
        return Ok(());
    }
    let got = st.borrow().data.clone();
    let mut want = Vec::new();
    for r in &keep {
        want.extend_from_slice(&r.bytes);
    }
    same_bytes(&got, &want, "record-changed", "records copied by decoding and serializing")?;
    w.disk.data = got;
    w.disk.synced = w.disk.data.len();
    w.recs = keep;
    for r in w.recs.iter_mut() {
        r.durable = true;
    }
    w.log(format!("compacted to {} records", w.recs.len()));
    core::probe("journal compacted");
    Ok(())
}
