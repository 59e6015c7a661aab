//! Damaged stored bytes are rejected or decoded to what they say, never worse.
use super::*;
use crate::core::{chance, choose, pick, range, sample, weighted};
use crate::tr;
use il2_iltags::tags::util;

pub const RULE: &str = "one evaluation decodes one damaged byte string and compares acceptance, value and consumed length with the reference parser; a history is non-trivial if at least one storage fault was injected";

/// One fault of the storage that held the bytes.
pub fn damage(b: &mut Vec<u8>, e: &Enc, other: &[u8]) {
    if b.is_empty() {
        b.push(choose(256) as u8);
        return;
    }
    let n = b.len() as u64;
    match weighted(&[6, 4, 10, 3, 3, 2, 2, 2, 2]) {
        0 => {
            core::fault("bit flip");
            let i = choose(n) as usize;
            b[i] ^= 1 << choose(8);
        }
        1 => {
            core::fault("byte overwritten");
            let i = choose(n) as usize;
            b[i] = pick(&[0u8, 1, 2, 9, 10, 14, 15, 16, 17, 21, 22, 30, 31, 32, 0x7f, 0x80, 0xc0, 0xf7, 0xf8, 0xfb, 0xff]);
        }
        2 => field_edit(b, e),
        3 => {
            core::fault("torn write: tail lost");
            b.truncate(choose(n) as usize);
        }
        4 => {
            core::fault("torn write: sector of other content");
            let sec = pick(&[1u64, 2, 4, 8, 16, 64, 512]);
            let at = (choose(n) / sec * sec) as usize;
            let fill = choose(3);
            for i in at..(at + sec as usize).min(b.len()) {
                b[i] = match fill {
                    0 => 0,
                    1 => 0xFF,
                    _ => other.get(i % other.len().max(1)).copied().unwrap_or(0),
                };
            }
        }
        5 => {
            core::fault("misplaced write");
            let len = (1 + choose(n.min(32))) as usize;
            let from = choose(n - len as u64 + 1) as usize;
            let to = choose(n - len as u64 + 1) as usize;
            let c = b[from..from + len].to_vec();
            b[to..to + len].copy_from_slice(&c);
        }
        6 => {
            core::fault("splice");
            if !other.is_empty() {
                let len = (1 + choose((other.len() as u64).min(64))) as usize;
                let from = choose(other.len() as u64 - len as u64 + 1) as usize;
                let at = choose(n + 1) as usize;
                let cut = (at + choose(8) as usize).min(b.len());
                b.splice(at..cut, other[from..from + len].iter().cloned());
            }
        }
        7 => {
            core::fault("trailing bytes");
            for _ in 0..1 + choose(4) {
                b.push(choose(256) as u8);
            }
        }
        _ => {
            core::fault("bytes removed");
            let at = choose(n) as usize;
            let cut = (at + 1 + choose(6) as usize).min(b.len());
            b.drain(at..cut);
        }
    }
}

/// Rewrites one field of the original encoding (header, count, boolean, integer, text).
fn field_edit(b: &mut Vec<u8>, e: &Enc) {
    let cand: Vec<&Field> = e.fields.iter().filter(|f| f.len > 0 && f.off + f.len <= b.len()).collect();
    if cand.is_empty() {
        return;
    }
    let f = pick(&cand).clone();
    let mut v: Vec<u8> = Vec::new();
    match f.fk {
        FK::Id => {
            core::fault("id field changed");
            let id = match choose(4) {
                0 => choose(40),
                1 => pick(&ID_POOL),
                2 => pick(&[16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31]),
                _ => gen_u64(),
            };
            ilint_put(&mut v, id);
        }
        FK::Size | FK::Count => {
            core::fault(if f.fk == FK::Size { "size field changed" } else { "count field changed" });
            let old = decode_int(&b[f.off..f.off + f.len]);
            let new = match choose(8) {
                0 => old.wrapping_add(1),
                1 => old.wrapping_sub(1),
                2 => 0,
                3 => old.wrapping_add(choose(20)).wrapping_sub(10),
                4 => old.wrapping_mul(2),
                5 => gen_u64(),
                6 => MAX_TAG + choose(3),
                _ => choose(300),
            };
            ilint_put(&mut v, new);
        }
        FK::Bool => {
            core::fault("boolean changed");
            v.push(pick(&[2u8, 0, 1, 3, 0xFF, 0x80, 16]));
        }
        FK::Text => {
            core::fault("text changed");
            v = b[f.off..f.off + f.len].to_vec();
            let i = choose(v.len() as u64) as usize;
            let bad: &[u8] = pick(&[
                &[0xFFu8][..],
                &[0xC0, 0x80],
                &[0xED, 0xA0, 0x80],
                &[0xF4, 0x90, 0x80, 0x80],
                &[0x80],
                &[0xE2, 0x82],
                &[0xC3],
                &[0xC3, 0xA9],
                &[0xF0, 0x9F, 0x98, 0x80],
                &[0xEF, 0xBB, 0xBF],
            ]);
            for (k, x) in bad.iter().enumerate() {
                if i + k < v.len() {
                    v[i + k] = *x;
                }
            }
        }
        FK::Int => {
            core::fault("integer changed");
            match choose(4) {
                0 => v = vec![0xFF; 9],
                1 => {
                    // longer than necessary
                    let old = decode_int(&b[f.off..f.off + f.len]).max(248);
                    let n = range(ilint_len(old) as u64, 9) as usize;
                    ilint_put_len(&mut v, old, n);
                }
                2 => {
                    // just around the largest value
                    v = vec![0xFF; 9];
                    v[8] = 0x05 + choose(5) as u8;
                }
                _ => ilint_put(&mut v, gen_u64()),
            }
        }
        FK::Data | FK::Scalar => {
            core::fault("data changed");
            v = b[f.off..f.off + f.len].to_vec();
            match choose(3) {
                0 => {
                    v.pop();
                }
                1 => v.push(choose(256) as u8),
                _ => {
                    let i = choose(v.len() as u64) as usize;
                    v[i] ^= 1 << choose(8);
                }
            }
        }
    }
    b.splice(f.off..f.off + f.len, v);
}

fn decode_int(b: &[u8]) -> u64 {
    if b[0] < 0xF8 {
        return b[0] as u64;
    }
    let mut v = 0u64;
    for x in &b[1..] {
        v = (v << 8) | *x as u64;
    }
    v.wrapping_add(0xF8)
}

/// Size fields that enclose an edited place are corrected, so that the damage lies deeper.
fn consistent_edit(t: &MTag, reg: &Reg) -> Vec<u8> {
    core::fault("inner damage with consistent sizes");
    // encode with one value replaced by raw bytes: wrap damaged children as raw values
    let mut inner = Enc {
        wide: chance(1, 2),
        ..Default::default()
    };
    inner.tag(t);
    let mut b = inner.out.clone();
    let other = b.clone();
    damage(&mut b, &inner, &other);
    let mut out = Vec::new();
    let depth = choose(4);
    let mut body = b;
    for _ in 0..=depth {
        let mut v = Vec::new();
        let k = choose(4);
        let id = match k {
            0 => 22,
            1 => 21,
            2 => 30,
            _ => 22,
        };
        match k {
            1 => {
                ilint_put(&mut v, 1 + choose(2));
                v.extend_from_slice(&body);
            }
            2 => {
                ilint_put(&mut v, 1);
                v.extend_from_slice(&[17, 1, b'k']);
                v.extend_from_slice(&body);
            }
            3 => {
                v.extend_from_slice(&[0, 1, 1]);
                v.extend_from_slice(&body);
                v.extend_from_slice(&[0]);
            }
            _ => v.extend_from_slice(&body),
        }
        out = Vec::new();
        ilint_put(&mut out, id);
        ilint_put(&mut out, v.len() as u64);
        out.extend_from_slice(&v);
        body = out.clone();
    }
    let _ = reg;
    out
}

/// Bytes that look like tags without being made from any.
fn soup() -> Vec<u8> {
    core::fault("unrelated content");
    let mut v = Vec::new();
    let n = 1 + choose(12);
    for _ in 0..n {
        match choose(4) {
            0 => v.push(choose(34) as u8),
            1 => v.push(choose(256) as u8),
            2 => {
                v.push(pick(&[16u8, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 40]));
                v.push(choose(24) as u8);
            }
            _ => ilint_put(&mut v, gen_u64()),
        }
    }
    v
}

pub fn run() -> Res<()> {
    let reg = gen_reg();
    let f = make_factory(&reg);
    let mut g = Gen::new(&reg, 0, 3);
    g.scale(&[40, 150, 600]);
    let t = if chance(1, 6) && reg.kind(22) == Some(Kind::Seq) && reg.kind(21) == Some(Kind::TagArr) && reg.kind(30) == Some(Kind::Dict) && reg.kind(0) == Some(Kind::Null) {
        let d = tower_depth(if chance(1, 4) { 40 } else { 6 });
        g.tower(d)
    } else {
        g.tag()
    };
    let mut e = Enc {
        wide: chance(1, 5),
        ..Default::default()
    };
    e.tag(&t);
    g.budget = 100;
    let other = enc(&g.tag());
    let rounds = 1 + choose(12);
    for _ in 0..rounds {
        let mut b = match weighted(&[10, 3, 2]) {
            0 => {
                let mut b = e.out.clone();
                for _ in 0..1 + weighted(&[8, 3, 1]) {
                    damage(&mut b, &e, &other);
                }
                b
            }
            1 => consistent_edit(&t, &reg),
            _ => soup(),
        };
        b.truncate(100_000);
        sample(|| format!("{} damaged to {}", hex(&e.out), hex(&b)));
        judge(&b, &reg, &f)?;
    }
    Ok(())
}

fn judge(b: &[u8], reg: &Reg, f: &dyn ILTagFactory) -> Res<()> {
    let mut p = Parser::new(reg);
    let want = p.tag(b);
    if p.claimed > 4_000_000 && !chance(1, 60) {
        return Ok(());
    }
    tr!("bytes {} -> model {:?}", hex(b), want.as_ref().map(|(t, n)| (t.short(), *n)));
    core::ev(0x34, b.len() as u64, core::digest(b));
    // stream entry point
    let src = if p.claimed > 4_000_000 { SrcKind::Array } else { pick_src() };
    let plan = Plan::benign(b.len());
    let dup = p.dup;
    with_source(src, b, plan, |s, _| {
        let r = f.deserialize(s.r());
        core::eval(1);
        match (&r, &want) {
            (Ok(t), Ok((m, n))) => {
                if !dup {
                    same(t.as_ref(), m, reg, "damaged bytes that still are an encoding")?;
                }
                if let Some(at) = s.pos() {
                    ensure!(
                        at == *n as u64,
                        "wrong-extent",
                        "decoding consumed {} bytes, the encoding has {}: {}",
                        at,
                        n,
                        hex(b)
                    );
                }
                core::probe("damaged bytes accepted");
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Err(_), Ok(_)) if dup => Ok(()),
            (Ok(t), Err(e)) => core::viol(
                "accepted-garbage",
                format!("tag {} decoded from bytes that are no encoding ({:?}): {}", t.id(), e, hex(b)),
            ),
            (Err(e), Ok((m, _))) => core::viol(
                "rejected-encoding",
                format!("{:?} for a well-formed encoding of {}: {}", e, m.short(), hex(b)),
            ),
        }
    })?;
    // whole-buffer entry point: trailing bytes are an error too
    if chance(1, 3) {
        core::eval(1);
        let exact = match &want {
            Ok((m, n)) if *n == b.len() => Some(m),
            _ => None,
        };
        match (f.from_bytes(b), exact) {
            (Ok(t), Some(m)) => {
                if !dup {
                    same(t.as_ref(), m, reg, "from_bytes() of damaged bytes")?;
                    // what was accepted has one canonical form
                    let c = fresh_bytes(t.as_ref(), "re-encoding an accepted value")?;
                    same_bytes(&c, &enc(m), "wrong-value", "re-encoding an accepted value")?;
                    ensure!(
                        t.size() == c.len() as u64,
                        "wrong-size",
                        "size() of an accepted value is {} for {} bytes",
                        t.size(),
                        c.len()
                    );
                } else {
                    let _ = util::iltag_are_equal(t.as_ref(), t.as_ref());
                }
            }
            (Err(_), None) => (),
            (Err(_), Some(_)) if dup => (),
            (Ok(t), None) => return core::viol("accepted-garbage", format!("from_bytes() gave tag {} for {}", t.id(), hex(b))),
            (Err(e), Some(m)) => return core::viol("rejected-encoding", format!("from_bytes(): {:?} for {}", e, m.short())),
        }
    }
    // into an existing object of the type the bytes announce
    if chance(1, 4) {
        if let Ok((m, _)) = &want {
            let mut t = blank(m.id, m.kind);
            let mut r = il2_iltags::io::array::ByteArrayReader::new(b);
            core::eval(1);
            match f.deserialize_into(&mut r, t.as_mut()) {
                Ok(()) => {
                    if !dup {
                        same(t.as_ref(), m, reg, "deserialize_into() of damaged bytes")?
                    }
                }
                Err(e) if !dup => return core::viol("rejected-encoding", format!("deserialize_into(): {:?} for {}", e, m.short())),
                Err(_) => (),
            }
        } else if let Some((id, k)) = header(b, reg) {
            let mut t = blank(id, k);
            let mut r = il2_iltags::io::array::ByteArrayReader::new(b);
            core::eval(1);
            if f.deserialize_into(&mut r, t.as_mut()).is_ok() {
                return core::viol("accepted-garbage", format!("deserialize_into() accepted {}", hex(b)));
            }
        }
    }
    Ok(())
}

/// Id and kind announced by the first bytes.
pub fn header(b: &[u8], reg: &Reg) -> Option<(u64, Kind)> {
    let h = *b.first()?;
    let id = if h < 0xF8 {
        h as u64
    } else {
        let n = (h - 0xF8) as usize + 1;
        if b.len() < 1 + n {
            return None;
        }
        let mut v: u64 = 0;
        for x in &b[1..=n] {
            v = (v << 8) | *x as u64;
        }
        v.checked_add(0xF8)?
    };
    reg.kind(id).map(|k| (id, k))
}
