//! Tags cross imperfect byte streams unchanged, in order, exactly once.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::sched;
use crate::tr;
use il2_iltags::io::{ReadReader, WriteWriter, Writer};
use std::sync::{Arc, Mutex};

pub const RULE: &str = "one evaluation compares one tag, byte string or position with the model after it crossed a simulated stream; a history is non-trivial if at least one fault (short or interrupted transfer, stall, blocking, task switch) happened";

pub fn run() -> Res<()> {
    match weighted(&[10, 3, 2, 2]) {
        0 => through_store(),
        1 => through_pipe(1),
        2 => {
            let hops = 2 + choose(2) as usize;
            through_pipe(hops)
        }
        _ => into_existing(),
    }
}

pub fn write_all_tags(w: &mut dyn Writer, reals: &[Box<dyn ILTag>], tags: &[MTag]) -> Res<()> {
    for (t, m) in reals.iter().zip(tags) {
        let n = enc(m).len() as u64;
        core::eval(1);
        ensure!(
            t.size() == n,
            "wrong-size",
            "size() is {} but the encoding takes {} bytes: {}",
            t.size(),
            n,
            m.short()
        );
        if let Err(e) = t.serialize(w) {
            return core::viol(
                "serialize-failed",
                format!("serialize() failed with {:?} although the sink accepts everything", e),
            );
        }
    }
    Ok(())
}

fn through_store() -> Res<()> {
    let reg = gen_reg();
    let tags = gen_stream(&reg, 4);
    let bytes = enc_all(&tags);
    let reals: Vec<_> = tags.iter().map(build).collect();
    tr!("tags: {}", tags.iter().map(|t| t.short()).collect::<Vec<_>>().join("; "));
    let snk = pick(&SNK_ALL);
    let plan = Plan::benign(bytes.len());
    let cap = bytes.len() + choose(5) as usize;
    let (r, got) = with_sink(snk, cap, plan, |w, _| write_all_tags(w, &reals, &tags));
    r?;
    same_bytes(&got, &bytes, "wrong-bytes", &format!("bytes in sink {:?}", snk))?;
    if chance(1, 3) {
        let i = choose(tags.len() as u64) as usize;
        same_bytes(&fresh_bytes(reals[i].as_ref(), "to_bytes()")?, &enc(&tags[i]), "wrong-bytes", "to_bytes()")?;
        // the value alone
        let mut v: Vec<u8> = Vec::new();
        let vs = reals[i].value_size();
        if let Err(e) = reals[i].serialize_value(&mut WriteWriter::new(&mut v)) {
            return core::viol("serialize-failed", format!("serialize_value(): {:?}", e));
        }
        same_bytes(&v, &enc_value(&tags[i]), "wrong-bytes", "serialize_value()")?;
        ensure!(vs == v.len() as u64, "wrong-size", "value_size() is {} for {} bytes", vs, v.len());
    }
    let f = make_factory(&reg);
    let src = pick_src();
    let plan = Plan::benign(got.len());
    sample(|| format!("{} tags, {} bytes, sink {:?}, source {:?}", tags.len(), bytes.len(), snk, src));
    let e = ends(&tags);
    with_source(src, &got, plan, |s, _| {
        for (i, m) in tags.iter().enumerate() {
            let t = match f.deserialize(s.r()) {
                Ok(t) => t,
                Err(e) => {
                    return core::viol(
                        "decode-failed",
                        format!("tag {} of {} from {:?}: {:?}: {}", i, tags.len(), src, e, m.short()),
                    )
                }
            };
            same(t.as_ref(), m, &reg, &format!("tag {} from {:?}", i, src))?;
            if let Some(p) = s.pos() {
                core::eval(1);
                ensure!(
                    p == e[i] as u64,
                    "wrong-extent",
                    "after tag {} the source is at {} instead of {}",
                    i,
                    p,
                    e[i]
                );
            }
            core::ev(0x31, i as u64, 0);
        }
        core::eval(1);
        match f.deserialize(s.r()) {
            Ok(t) => core::viol("invented-tag", format!("a tag with id {} after the last one", t.id())),
            Err(_) => Ok(()),
        }
    })?;
    if chance(1, 4) {
        let i = choose(tags.len() as u64) as usize;
        let t = decode_slice(&f, &enc(&tags[i]), "from_bytes()")?;
        same(t.as_ref(), &tags[i], &reg, "from_bytes()")?;
    }
    Ok(())
}

/// Producer, `hops - 1` relays that decode and re-encode, and a consumer, connected by small pipes.
fn through_pipe(hops: usize) -> Res<()> {
    let reg = gen_reg();
    let mut tags = gen_stream(&reg, 3);
    for t in tags.iter_mut() {
        if enc(t).len() > 3000 {
            *t = MTag {
                id: 0,
                kind: Kind::Null,
                val: Val::Null,
            };
        }
    }
    let len = enc_all(&tags).len();
    let pipes: Vec<Pipe> = (0..hops)
        .map(|i| {
            let cap = match choose(5) {
                0 => 1 + len / 100,
                1 => 2 + len / 100,
                2 => 16 + len / 64,
                3 => 64 + len / 64,
                _ => 1 + choose(len as u64 + 1) as usize + len / 100,
            };
            let mut plan = Plan::benign(len);
            plan.frag = match plan.frag {
                Frag::Full => Frag::Full,
                _ => Frag::Rand(1 + len / 200),
            };
            pipe(cap, i as u64, plan)
        })
        .collect();
    sample(|| format!("{} tags, {} bytes, {} pipes", tags.len(), len, hops));
    let tags = Arc::new(tags);
    let reg = Arc::new(reg);
    let got = Arc::new(Mutex::new(0usize));
    let mut jobs: Vec<sched::Job> = Vec::new();
    {
        let tags = tags.clone();
        let mut p = pipes[0].clone();
        jobs.push(Box::new(move || {
            let reals: Vec<_> = tags.iter().map(build_plain).collect();
            let r = write_all_tags(&mut WriteWriter::new(&mut p), &reals, &tags);
            p.close();
            r
        }));
    }
    for h in 1..hops {
        let mut src = pipes[h - 1].clone();
        let mut dst = pipes[h].clone();
        let (tags, reg) = (tags.clone(), reg.clone());
        jobs.push(Box::new(move || {
            let f = make_factory(&reg);
            let r = (|| {
                for m in tags.iter() {
                    match f.deserialize(&mut ReadReader::new(&mut src)) {
                        Ok(t) => write_all_tags(&mut WriteWriter::new(&mut dst), &[t], std::slice::from_ref(m))?,
                        Err(e) => return core::viol("decode-failed", format!("relay {}: {:?}", h, e)),
                    }
                }
                Ok(())
            })();
            dst.close();
            r
        }));
    }
    {
        let mut p = pipes[hops - 1].clone();
        let (tags, reg, got) = (tags.clone(), reg.clone(), got.clone());
        jobs.push(Box::new(move || {
            let f = make_factory(&reg);
            for (i, m) in tags.iter().enumerate() {
                match f.deserialize(&mut ReadReader::new(&mut p)) {
                    Ok(t) => same(t.as_ref(), m, &reg, &format!("tag {} from a pipe", i))?,
                    Err(e) => return core::viol("decode-failed", format!("tag {} from a pipe: {:?}", i, e)),
                }
                *got.lock().unwrap() += 1;
            }
            match f.deserialize(&mut ReadReader::new(&mut p)) {
                Ok(t) => core::viol("invented-tag", format!("a tag with id {} after the last one", t.id())),
                Err(_) => Ok(()),
            }
        }));
    }
    let eager = pick(&[16, 4, 1, 8]);
    sched::run_tasks(jobs, eager, 0)?;
    let n = *got.lock().unwrap();
    ensure!(n == tags.len(), "lost-tag", "{} of {} tags arrived", n, tags.len());
    for (i, p) in pipes.iter().enumerate() {
        let total = p.0.lock().unwrap().total;
        ensure!(
            total == len as u64,
            "wrong-bytes",
            "{} bytes passed through pipe {} instead of {}",
            total,
            i,
            len
        );
    }
    Ok(())
}

/// Deserialization into tags that already exist.
fn into_existing() -> Res<()> {
    let reg = gen_reg();
    let tags = gen_stream(&reg, 3);
    let bytes = enc_all(&tags);
    let f = make_factory(&reg);
    let src = pick_src();
    let plan = Plan::benign(bytes.len());
    sample(|| format!("{} tags into existing objects, {} bytes, source {:?}", tags.len(), bytes.len(), src));
    let e = ends(&tags);
    with_source(src, &bytes, plan, |s, _| {
        for (i, m) in tags.iter().enumerate() {
            let mut t = blank(m.id, m.kind);
            if let Err(e) = f.deserialize_into(s.r(), t.as_mut()) {
                return core::viol("decode-failed", format!("deserialize_into() from {:?}: {:?}: {}", src, e, m.short()));
            }
            same(t.as_ref(), m, &reg, &format!("deserialize_into() from {:?}", src))?;
            if let Some(p) = s.pos() {
                ensure!(
                    p == e[i] as u64,
                    "wrong-extent",
                    "after tag {} the source is at {} instead of {}",
                    i,
                    p,
                    e[i]
                );
            }
            same_bytes(&fresh_bytes(t.as_ref(), "re-encoding")?, &enc(m), "wrong-bytes", "re-encoding")?;
        }
        Ok(())
    })
}
