//! Raw scanning reports extents that tile the stream, on any stream.
use super::*;
use crate::core::{chance, choose, pick, range, sample, weighted};
use crate::tr;
use il2_iltags::io::array::ByteArrayReader;
use il2_iltags::io::Reader;
use il2_iltags::tags::raw::{RawTagOffset, RawTagScanner};
use il2_iltags::tags::ErrorKind;

pub const RULE: &str = "one evaluation compares one scanned extent (or one refusal) with the extent the reference encoder gave the tag; a history is non-trivial if at least one fault (fragmented, interrupted, truncated or failing stream, impossible size) happened";

pub fn run() -> Res<()> {
    match weighted(&[6, 5, 3, 2, 1, 1]) {
        0 => whole(),
        1 => broken(),
        2 => impossible(),
        3 => alternate(),
        4 => arithmetic(),
        _ => vast(),
    }
}

fn workload() -> (Reg, Vec<MTag>, Enc) {
    let reg = gen_reg();
    let tags = gen_stream(&reg, 6);
    let mut e = Enc {
        wide: chance(2, 3),
        ..Default::default()
    };
    for t in &tags {
        e.tag(t);
    }
    (reg, tags, e)
}

fn tops(e: &Enc) -> Vec<Extent> {
    let mut v: Vec<Extent> = e.extents.iter().filter(|x| x.depth == 0).cloned().collect();
    v.sort_by_key(|x| x.start);
    v
}

/// The reported extent is the real one.
fn same_extent(o: &RawTagOffset, x: &Extent, base: usize, what: &str) -> Res<()> {
    core::eval(1);
    let (s, v, n) = ((x.start - base) as u64, (x.value - base) as u64, (x.end - base) as u64);
    ensure!(
        o.id() == x.id
            && o.offset() == s
            && o.value_offset() == v
            && o.next_tag_offset() == n
            && o.size() == n - s
            && o.value_size() == n - v
            && o.tag_start() as u64 == s
            && o.tag_end() as u64 == n
            && o.value_start() as u64 == v
            && o.value_end() as u64 == n,
        "wrong-extent",
        "{}: reported {:?} instead of id {} start {} value {} end {}",
        what,
        o,
        x.id,
        s,
        v,
        n
    );
    Ok(())
}

fn whole() -> Res<()> {
    let (reg, tags, e) = workload();
    let bytes = e.out.clone();
    let tops = tops(&e);
    let kind = pick_src();
    let pre = if chance(1, 3) { choose(20) as usize } else { 0 };
    let mut all = vec![0xF8; pre];
    all.extend_from_slice(&bytes);
    sample(|| format!("{} tags, {} bytes behind {:?} after {} other bytes", tops.len(), bytes.len(), kind, pre));
    tr!("bytes {}", hex(&bytes));
    let found = with_source(kind, &all, Plan::benign(all.len()), |s, _| -> Res<Vec<(usize, RawTagOffset)>> {
        for _ in 0..pre {
            if s.r().read().is_err() {
                return core::viol("refused", "reading before the scan failed".into());
            }
        }
        let mut found = Vec::new();
        let mut r = DynR(s.r());
        let mut sc = RawTagScanner::new(&mut r);
        for (i, x) in tops.iter().enumerate() {
            let r = match choose(4) {
                0 => sc.next_tag_if_id(x.id),
                1 => {
                    // the wrong expectation is reported as such
                    let other = if chance(1, 2) { x.id.wrapping_add(1) } else { gen_u64() };
                    let r = sc.next_tag_if_id(other);
                    if other != x.id {
                        core::eval(1);
                        match r {
                            Err(ErrorKind::UnexpectedTagType) => {
                                // "works just like next_tag()": the tag is behind
                                // the scanner now
                                core::probe("unexpected id refused");
                                continue;
                            }
                            r => return core::viol("wrong-answer", format!("tag {} asked for as {}: {:?}", x.id, other, r)),
                        }
                    }
                    r
                }
                _ => sc.next_tag(),
            };
            match r {
                Ok(Some(o)) => {
                    same_extent(&o, x, 0, &format!("tag {} from {:?}", i, kind))?;
                    found.push((i, o));
                }
                r => {
                    return core::viol(
                        "scan-failed",
                        format!("tag {} of {} from {:?}: {:?}: {}", i, tops.len(), kind, r, hex(&bytes[x.start..])),
                    )
                }
            }
        }
        core::eval(1);
        if let Ok(Some(o)) = sc.next_tag() {
            return core::viol("invented-tag", format!("{:?} after the last tag", o));
        }
        drop(sc);
        drop(r);
        if let Some(p) = s.pos() {
            ensure!(
                p as usize >= all.len(),
                "wrong-extent",
                "after the scan the source is at {} of {}",
                p,
                all.len()
            );
        }
        Ok(found)
    })?;
    // slices and nested extents
    for (i, o) in found.iter() {
        let x = &tops[*i];
        core::eval(1);
        ensure!(
            o.tag_slice(&bytes) == &bytes[x.start..x.end] && o.value_slice(&bytes) == &bytes[x.value..x.end],
            "wrong-extent",
            "slices of {:?} are not the tag and its value",
            o
        );
        nested(o, x, &e, &reg, &bytes)?;
    }
    if let (true, Some((i, o))) = (chance(1, 3), found.first()) {
        let f = make_factory(&reg);
        let t = decode_slice(&f, o.tag_slice(&bytes), "decoding a scanned slice")?;
        same(t.as_ref(), &tags[*i], &reg, "a scanned slice")?;
    }
    Ok(())
}

/// Sequences consist of tags only: their content can be scanned in turn.
fn nested(o: &RawTagOffset, x: &Extent, e: &Enc, reg: &Reg, bytes: &[u8]) -> Res<()> {
    if reg.kind(x.id) != Some(Kind::Seq) {
        return Ok(());
    }
    let mut kids: Vec<&Extent> = e
        .extents
        .iter()
        .filter(|k| k.depth == x.depth + 1 && k.start >= x.value && k.end <= x.end)
        .collect();
    kids.sort_by_key(|k| k.start);
    let v = o.value_slice(bytes);
    let kind = pick_src();
    with_source(kind, v, Plan::benign(v.len()), |s, _| {
        let mut r = DynR(s.r());
        let mut sc = RawTagScanner::new(&mut r);
        for k in kids.iter().take(50) {
            let c = match sc.next_tag() {
                Ok(Some(c)) => c,
                r => return core::viol("scan-failed", format!("nested tag at {}: {:?}", k.start, r)),
            };
            same_extent(&c, k, x.value, "nested tag")?;
            let m = match c.map_to_parent_space(o) {
                Ok(m) => m,
                Err(e) => return core::viol("scan-failed", format!("map_to_parent_space(): {:?} for {:?} in {:?}", e, c, o)),
            };
            same_extent(&m, k, 0, "nested tag in the parent's space")?;
            ensure!(
                m.tag_slice(bytes) == &bytes[k.start..k.end] && m.value_slice(bytes) == &bytes[k.value..k.end],
                "wrong-extent",
                "slices of the mapped {:?} are not the tag and its value",
                m
            );
            nested(&m, k, e, reg, bytes)?;
        }
        if kids.len() <= 50 {
            if let Ok(Some(o)) = sc.next_tag() {
                return core::viol("invented-tag", format!("{:?} after the last nested tag", o));
            }
        }
        Ok(())
    })
}

/// Streams that end or fail.
fn broken() -> Res<()> {
    let (_reg, _, e) = workload();
    let bytes = e.out.clone();
    let tops = tops(&e);
    let marks: Vec<usize> = e.fields.iter().filter(|f| f.depth == 0).map(|f| f.off).chain(tops.iter().map(|x| x.end)).collect();
    for _ in 0..1 + choose(4) {
        let at = cut_pos(bytes.len(), &marks) as usize;
        let cut = chance(1, 2);
        let kind = if cut { pick_src() } else { pick(&SRC_FAULTY) };
        let mut plan = Plan::benign(bytes.len());
        let mut seek_fail = false;
        if !cut {
            if matches!(kind, SrcKind::Seekable | SrcKind::Nested) && chance(1, 3) {
                plan.seek_fail = Some((choose(6), chance(1, 2)));
                seek_fail = true;
            } else {
                plan.fail = Some(Fail {
                    at: at as u64,
                    how: if chance(1, 4) { FailHow::Zero } else { FailHow::Err(pick(&HARD_KINDS)) },
                    sticky: chance(1, 2),
                    partial: chance(1, 2),
                    id: 8,
                });
            }
        } else {
            core::fault("stream truncated");
        }
        sample(|| format!("{} tags, {} bytes, cut {} at {} behind {:?}", tops.len(), bytes.len(), cut, at, kind));
        tr!("bytes {} cut {} at {} seek failure {}", hex(&bytes), cut, at, seek_fail);
        let data = if cut { &bytes[..at] } else { &bytes[..] };
        let complete = tops.iter().filter(|x| x.end <= at).count();
        with_source(kind, data, plan, |s, st| {
            let mut r = DynR(s.r());
            let mut sc = RawTagScanner::new(&mut r);
            let mut n = 0;
            loop {
                match sc.next_tag() {
                    Ok(Some(o)) => {
                        ensure!(n < tops.len(), "invented-tag", "{:?} after the last tag", o);
                        same_extent(&o, &tops[n], 0, &format!("tag {} before the failure at {}", n, at))?;
                        if cut {
                            ensure!(
                                tops[n].end <= at,
                                "extent-of-truncated-tag",
                                "{:?}: tag {} ends at {} but the stream ends at {}",
                                kind,
                                n,
                                tops[n].end,
                                at
                            );
                        } else if let Some(st) = st {
                            // a failure the scanner ran into must not be followed by the extent
                            ensure!(
                                st.borrow().fired.is_none(),
                                "fault-hidden",
                                "{:?}: extent {:?} reported although the stream failed while scanning it",
                                kind,
                                o
                            );
                        }
                        n += 1;
                    }
                    Ok(None) | Err(_) => {
                        core::eval(1);
                        let end = if seek_fail { 0 } else { complete };
                        ensure!(
                            n >= end,
                            "lost-tag",
                            "{:?}: scan stopped after {} tags, {} lie before {}",
                            kind,
                            n,
                            end,
                            at
                        );
                        return Ok(());
                    }
                }
            }
        })?;
    }
    Ok(())
}

/// Sizes no stream could hold.
fn impossible() -> Res<()> {
    let (_reg, _, e) = workload();
    let tops = tops(&e);
    let mut bytes = e.out.clone();
    let id = match choose(3) {
        0 => 16 + choose(20),
        1 => gen_u64().max(16),
        _ => 22,
    };
    let size = match choose(5) {
        0 => u64::MAX - choose(40),
        1 => (1 << 63) + choose(40) - 20,
        2 => (u64::MAX - bytes.len() as u64).saturating_sub(choose(40)),
        3 => (1 << 32) + choose(10) - 5,
        _ => 1 + choose(1000) + bytes.len() as u64,
    };
    let mut h = Vec::new();
    ilint_put(&mut h, id);
    ilint_put(&mut h, size);
    core::fault("impossible size");
    let front = bytes.len();
    bytes.extend_from_slice(&h);
    let k = choose(60).min(size - 1) as usize;
    bytes.extend(gen_bytes(k));
    let kind = pick_src();
    sample(|| format!("id {} claims {} bytes, {} follow, behind {:?}", id, size, k, kind));
    tr!("id {} claims {} bytes, {} follow: {}", id, size, k, hex(&bytes));
    with_source(kind, &bytes, Plan::benign(bytes.len()), |s, _| {
        let mut r = DynR(s.r());
        let mut sc = RawTagScanner::new(&mut r);
        for (i, x) in tops.iter().enumerate() {
            match sc.next_tag() {
                Ok(Some(o)) => same_extent(&o, x, 0, &format!("tag {}", i))?,
                r => return core::viol("scan-failed", format!("tag {}: {:?}", i, r)),
            }
        }
        core::eval(1);
        match sc.next_tag() {
            Err(_) => Ok(()),
            Ok(o) => core::viol(
                "extent-of-truncated-tag",
                format!("{:?} at {} although only {} bytes follow a claim of {} ({:?})", o, front, k, size, kind),
            ),
        }
    })
}

/// Streams far larger than memory, with tags far beyond 4 GiB.
fn vast() -> Res<()> {
    let mut m = Sparse::new(0);
    let mut want: Vec<(u64, Extent)> = Vec::new();
    let mut at = 0u64;
    for _ in 0..1 + choose(7) {
        let id = match choose(3) {
            0 => 16 + choose(20),
            1 => gen_u64().max(16),
            _ => pick(&[0u64, 3, 9, 10, 14]),
        };
        let mut h = Vec::new();
        ilint_put(&mut h, id);
        let (header, size) = if id >= 16 {
            let size = match choose(5) {
                0 => choose(300),
                1 => gen_u64() >> 8,
                2 => (1u64 << pick(&[16, 29, 31, 32, 33, 40])) + choose(10) - 5,
                3 => range(1 << 31, 1 << 34),
                _ => range(0, 1 << 55),
            };
            ilint_put(&mut h, size);
            (h.len(), size)
        } else {
            let n = h.len();
            match id {
                10 | 14 => ilint_put(&mut h, gen_u64()),
                _ => h.extend(gen_bytes(fixed_len(std_kind(id).unwrap()).unwrap_or(0))),
            }
            (n, (h.len() - n) as u64)
        };
        let end = at + header as u64 + size;
        want.push((id, Extent { id, start: at as usize, value: at as usize + header, end: end as usize, depth: 0 }));
        m.parts.insert(at, h);
        at = end;
    }
    let last = want.last().unwrap().1.clone();
    let cut = last.end > last.start + 1 && chance(1, 3);
    m.len = if cut {
        core::fault("stream truncated");
        match choose(3) {
            0 => last.end as u64 - 1,
            _ => range(last.start as u64 + 1, last.end as u64 - 1),
        }
    } else {
        at
    };
    core::fault("stream larger than memory");
    core::nontrivial();
    let total = m.len;
    let kind = choose(3);
    sample(|| format!("{} tags on a medium of {} bytes (cut: {}), kind {}", want.len(), total, cut, kind));
    core::ev(0x82, kind, total);
    let mut pos: Option<u64> = None;
    match kind {
        0 => {
            let r = scan_vast(&mut m, &want, cut, |m| Some(m.pos));
            pos = Some(m.pos);
            r
        }
        1 => scan_vast(&mut SparseReader(m), &want, cut, |m| Some(m.0.pos)),
        _ => {
            let mut src = SparseReader(m);
            let lim = if chance(1, 2) { usize::MAX } else { total as usize };
            let mut l = il2_iltags::io::LimitedReader::new(&mut src, lim);
            scan_vast(&mut l, &want, cut, |l| Some((lim - l.available()) as u64))
        }
    }?;
    if let Some(p) = pos {
        ensure!(p <= total, "wrong-extent", "the scan left the stream at {} of {}", p, total);
    }
    Ok(())
}

fn scan_vast<R: Reader>(r: &mut R, want: &[(u64, Extent)], cut: bool, pos: impl Fn(&R) -> Option<u64>) -> Res<()> {
    let mut got = Vec::new();
    let mut sc = RawTagScanner::new(r);
    for (i, (id, x)) in want.iter().enumerate() {
        let r = if chance(1, 4) { sc.next_tag_if_id(*id) } else { sc.next_tag() };
        match r {
            Ok(Some(o)) if !(cut && i + 1 == want.len()) => {
                same_extent(&o, x, 0, &format!("tag {} of a vast stream", i))?;
                got.push(o);
            }
            Ok(o) => return core::viol("extent-of-truncated-tag", format!("{:?} for tag {} which the end of the stream cuts ({:?})", o, i, x)),
            Err(e) if !(cut && i + 1 == want.len()) => return core::viol("scan-failed", format!("tag {} ({:?}) of a vast stream: {:?}", i, x, e)),
            Err(_) => core::eval(1),
        }
    }
    if !cut {
        let end = want.last().unwrap().1.end as u64;
        if let Some(p) = pos(r) {
            core::eval(1);
            ensure!(p == end, "wrong-extent", "after the scan the source is at {} instead of {}", p, end);
        }
        core::eval(1);
        if let Ok(Some(o)) = RawTagScanner::new(r).next_tag() {
            return core::viol("extent-of-truncated-tag", format!("{:?} at the end of the stream", o));
        }
    }
    Ok(())
}

/// The scanner leaves the source exactly behind the tag: decoding and scanning may take turns.
fn alternate() -> Res<()> {
    let (reg, tags, e) = workload();
    let bytes = e.out.clone();
    let tops = tops(&e);
    let f = make_factory(&reg);
    let kind = pick_src();
    sample(|| format!("scan and decode {} tags in turn, {} bytes behind {:?}", tops.len(), bytes.len(), kind));
    with_source(kind, &bytes, Plan::benign(bytes.len()), |s, _| {
        for (i, x) in tops.iter().enumerate() {
            if chance(1, 2) {
                let mut r = DynR(s.r());
                match RawTagScanner::new(&mut r).next_tag() {
                    Ok(Some(o)) => same_extent(&o, x, x.start, &format!("tag {}", i))?,
                    r => return core::viol("scan-failed", format!("tag {}: {:?}", i, r)),
                }
            } else {
                match f.deserialize(s.r()) {
                    Ok(t) => same(t.as_ref(), &tags[i], &reg, "decoded between scans")?,
                    Err(e) => return core::viol("decode-failed", format!("tag {} between scans: {:?}", i, e)),
                }
            }
            if let Some(p) = s.pos() {
                core::eval(1);
                ensure!(p == x.end as u64, "wrong-extent", "after tag {} the source is at {} instead of {}", i, p, x.end);
            }
        }
        Ok(())
    })
}

/// Extents put together by hand follow the same arithmetic.
fn arithmetic() -> Res<()> {
    let big = |lim: u64| match choose(3) {
        0 => choose(20),
        1 => choose(1000),
        _ => range(0, lim),
    };
    let p = RawTagOffset::new(22, big(1 << 60), 2 + choose(17), big(1 << 60));
    let c = RawTagOffset::new(gen_u64(), big(1 << 60).min(p.value_size() + 2), 1 + choose(18), big(p.value_size().max(1)));
    sample(|| format!("{:?} inside {:?}", c, p));
    core::ev(0x81, p.offset(), c.offset());
    core::nontrivial();
    core::eval(1);
    let fits = c.offset() + c.size() <= p.value_size();
    match c.map_to_parent_space(&p) {
        Ok(m) => {
            ensure!(
                fits && m.id() == c.id()
                    && m.offset() == p.value_offset() + c.offset()
                    && m.value_offset() - m.offset() == c.value_offset() - c.offset()
                    && m.value_size() == c.value_size()
                    && m.next_tag_offset() == m.offset() + m.size(),
                "wrong-extent",
                "{:?} inside {:?} mapped to {:?}",
                c,
                p,
                m
            );
        }
        Err(ErrorKind::CorruptedData) if !fits => (),
        Err(e) => return core::viol("wrong-error", format!("{:?} for {:?} inside {:?}", e, c, p)),
    }
    // header and value too short for a tag at all
    let b = gen_bytes(choose(4) as usize);
    let mut r = ByteArrayReader::new(&b);
    let mut sc = RawTagScanner::new(&mut r);
    let mut at = 0u64;
    while let Ok(Some(o)) = sc.next_tag() {
        core::eval(1);
        ensure!(o.offset() == at && o.next_tag_offset() <= b.len() as u64, "wrong-extent", "{:?} in {}", o, hex(&b));
        at = o.next_tag_offset();
    }
    Ok(())
}
