//! Position and length queries on seekable streams are exact and side-effect free.
use super::*;
use crate::core::{chance, choose, pick, sample, weighted};
use crate::tr;
use il2_iltags::io::std_io::SizedSeek;
use il2_iltags::io::{Reader, Writer};
use std::io::{self, BufReader, BufWriter, Cursor, Seek, SeekFrom};

pub const RULE: &str = "one evaluation compares one query (len, is_empty, offset, available) or the position after an operation with the truth; a history is non-trivial if a fault happened or the position was beyond the end";

/// A seekable stream under test together with the truth about it.
struct Dev<T: 'static> {
    t: T,
    st: Option<St>,
    pos: fn(&T) -> u64,
    len: fn(&T) -> u64,
    rd: Option<fn(&mut T) -> &mut dyn Reader>,
    wr: Option<fn(&mut T) -> &mut dyn Writer>,
    /// the length changed by someone else (a writer in another process, a truncation)
    resize: Option<fn(&mut T, u64)>,
    /// content is kept, so that bytes read can be checked
    byte: Option<fn(&T, u64) -> u8>,
}

/// A stream of any size that stores nothing.
struct Virt {
    len: u64,
    pos: u64,
    seeks: u64,
    fail: Option<(u64, bool, io::ErrorKind)>,
    fired: bool,
    /// offsets beyond i64::MAX are refused, as files do
    signed: bool,
}

impl Seek for Virt {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        core::step();
        let n = self.seeks;
        self.seeks += 1;
        if let Some((at, sticky, k)) = self.fail {
            if n == at || (sticky && n > at) {
                core::fault("seek failure");
                self.fired = true;
                return Err(sim_err(k, 901));
            }
        }
        let p: i128 = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        let max = if self.signed { i64::MAX as i128 } else { u64::MAX as i128 };
        if p < 0 || p > max {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

impl io::Read for Virt {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        core::step();
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos));
        buf[..n as usize].iter_mut().for_each(|b| *b = 0);
        self.pos += n;
        Ok(n as usize)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Len,
    Empty,
    Offset,
    Available,
}

pub fn run() -> Res<()> {
    let data = gen_bytes(pick(&[0usize, 0, 1, 2, 7, 30, 100, 600]).min(600));
    let plan = Plan::benign(data.len());
    match choose(9) {
        0 => drive(Dev {
            t: Cursor::new(data),
            st: None,
            pos: |c| c.position(),
            len: |c| c.get_ref().len() as u64,
            rd: Some(|c| c),
            wr: None,
            resize: Some(|c, n| c.get_mut().resize(n as usize, 7)),
            byte: Some(|c, i| c.get_ref()[i as usize]),
        }),
        1 => {
            let data: &'static [u8] = Box::leak(data.into_boxed_slice());
            let r = drive(Dev {
                t: Cursor::new(data),
                st: None,
                pos: |c| c.position(),
                len: |c| c.get_ref().len() as u64,
                rd: Some(|c| c),
                wr: None,
                resize: None,
                byte: Some(|c, i| c.get_ref()[i as usize]),
            });
            // SAFETY: made by Box::leak above, and drive() has given up the only other reference
            drop(unsafe { Box::from_raw(data as *const [u8] as *mut [u8]) });
            r
        }
        2 => {
            let st = stream(data, plan);
            drive(Dev {
                t: SStream(st.clone()),
                st: Some(st),
                pos: |s| s.0.borrow().pos,
                len: |s| s.0.borrow().data.len() as u64,
                rd: None,
                wr: None,
                resize: Some(|s, n| s.0.borrow_mut().data.resize(n as usize, 7)),
                byte: None,
            })
        }
        3 => {
            let st = stream(data, plan);
            drive(Dev {
                t: RSStream(st.clone()),
                st: Some(st),
                pos: |s| s.0.borrow().pos,
                len: |s| s.0.borrow().data.len() as u64,
                rd: Some(|s| s),
                wr: None,
                resize: Some(|s, n| s.0.borrow_mut().data.resize(n as usize, 7)),
                byte: Some(|s, i| s.0.borrow().data[i as usize]),
            })
        }
        4 => {
            let st = stream(data, plan);
            drive(Dev {
                t: RWSStream(st.clone()),
                st: Some(st),
                pos: |s| s.0.borrow().pos,
                len: |s| s.0.borrow().data.len() as u64,
                rd: Some(|s| s),
                wr: Some(|s| s),
                resize: Some(|s, n| s.0.borrow_mut().data.resize(n as usize, 7)),
                byte: Some(|s, i| s.0.borrow().data[i as usize]),
            })
        }
        5 => {
            let st = stream(data, plan);
            drive(Dev {
                t: BufReader::with_capacity(pick(&[1usize, 3, 8, 64, 512, 8192]), RSStream(st.clone())),
                st: Some(st),
                pos: |b| b.get_ref().0.borrow().pos - b.buffer().len() as u64,
                len: |b| b.get_ref().0.borrow().data.len() as u64,
                rd: Some(|b| b),
                wr: None,
                resize: None,
                byte: Some(|b, i| b.get_ref().0.borrow().data[i as usize]),
            })
        }
        6 => {
            let st = stream(data, plan);
            drive(Dev {
                t: BufWriter::with_capacity(pick(&[1usize, 3, 8, 64, 512, 8192]), WSStream(st.clone())),
                st: Some(st),
                pos: |b| b.get_ref().0.borrow().pos + b.buffer().len() as u64,
                len: |b| {
                    let s = b.get_ref().0.borrow();
                    let n = b.buffer().len() as u64;
                    let l = s.data.len() as u64;
                    if n == 0 {
                        l
                    } else {
                        l.max(s.pos + n)
                    }
                },
                rd: None,
                wr: Some(|b| b),
                resize: None,
                byte: None,
            })
        }
        _ => {
            let len = match choose(5) {
                0 => choose(3),
                1 => choose(1000),
                2 => gen_u64(),
                3 => u64::MAX - choose(3),
                _ => i64::MAX as u64 - 2 + choose(5),
            };
            let signed = chance(1, 3);
            let len = if signed { len.min(i64::MAX as u64) } else { len };
            let fail = if chance(1, 3) { Some((choose(30), chance(1, 2), pick(&HARD_KINDS))) } else { None };
            let v = Virt { len, pos: 0, seeks: 0, fail, fired: false, signed };
            if chance(1, 2) {
                drive_virt(v)
            } else {
                let mut v = v;
                v.fail = None;
                drive(Dev {
                    t: v,
                    st: None,
                    pos: |v| v.pos,
                    len: |v| v.len,
                    rd: Some(|v| v),
                    wr: None,
                    resize: Some(|v, n| v.len = n),
                    byte: Some(|_, _| 0),
                })
            }
        }
    }
}

/// Only queries, with seeks that fail.
fn drive_virt(mut v: Virt) -> Res<()> {
    for _ in 0..3 + choose(12) {
        v.pos = place(v.len, v.pos);
        if v.signed {
            v.pos = v.pos.min(i64::MAX as u64);
        }
        let (pos, len) = (v.pos, v.len);
        v.fired = false;
        let q = pick(&[Q::Len, Q::Empty, Q::Offset, Q::Available]);
        let r = ask(&mut v, q);
        judge(q, r, pos, len, v.fired, "a stream that stores nothing")?;
        if !v.fired {
            ensure!(v.pos == pos, "position-moved", "{:?} moved the position from {} to {} of {}", q, pos, v.pos, len);
        }
    }
    Ok(())
}

fn place(len: u64, pos: u64) -> u64 {
    match choose(8) {
        0 => 0,
        1 => len,
        2 => len.saturating_add(1),
        3 => len.saturating_add(choose(100)),
        4 => u64::MAX - choose(3),
        5 => i64::MAX as u64 - 1 + choose(3),
        6 => pos,
        _ => {
            if len == 0 {
                0
            } else {
                choose(len)
            }
        }
    }
}

fn ask(s: &mut dyn SizedSeek, q: Q) -> Result<u64, il2_iltags::io::ErrorKind> {
    match q {
        Q::Len => s.len(),
        Q::Empty => s.is_empty().map(|b| b as u64),
        Q::Offset => s.offset(),
        Q::Available => s.available(),
    }
}

fn judge(q: Q, r: Result<u64, il2_iltags::io::ErrorKind>, pos: u64, len: u64, fired: bool, what: &str) -> Res<()> {
    core::eval(1);
    if pos > len {
        core::nontrivial();
        core::probe("query beyond the end");
    }
    let want = match q {
        Q::Len => len,
        Q::Empty => (len == 0) as u64,
        Q::Offset => pos,
        Q::Available => len.saturating_sub(pos),
    };
    match r {
        Ok(v) => {
            ensure!(!fired, "failure-hidden", "{:?} returned {} although a seek of {} failed", q, v, what);
            ensure!(v == want, "wrong-answer", "{:?} returned {} instead of {} at {} of {} in {}", q, v, want, pos, len, what);
        }
        Err(e) => ensure!(fired, "query-failed", "{:?} failed with {:?} at {} of {} in {}", q, e, pos, len, what),
    }
    Ok(())
}

fn drive<T: Seek>(mut d: Dev<T>) -> Res<()> {
    let mut hist = String::new();
    let ops = 4 + choose(24);
    let name = std::any::type_name::<T>();
    core::ev(0x80, name.len() as u64, ops);
    for _ in 0..ops {
        core::advance(1_000);
        let (pos, len) = ((d.pos)(&d.t), (d.len)(&d.t));
        if let Some(st) = &d.st {
            let mut s = st.borrow_mut();
            s.fired = None;
            // a fault in a seek or transfer to come
            s.plan.seek_fail = None;
            s.plan.fail = None;
            if chance(1, 6) {
                let at = s.seeks + choose(4);
                s.plan.seek_fail = Some((at, chance(1, 3)));
            } else if chance(1, 8) {
                let at = s.pos.saturating_add(choose(20));
                s.plan.fail = Some(Fail { at, how: FailHow::Err(pick(&HARD_KINDS)), sticky: true, partial: chance(1, 2), id: 81 });
            }
        }
        let op = weighted(&[10, 4, 3, 3, 2, 2]);
        core::ev(0x81, op as u64, pos);
        let mut keep = true;
        let what = match op {
            0 => {
                let q = pick(&[Q::Len, Q::Empty, Q::Offset, Q::Available]);
                let r = if chance(1, 4) {
                    let mut b: Box<&mut dyn Seek> = Box::new(&mut d.t);
                    ask(&mut b, q)
                } else {
                    ask(&mut d.t, q)
                };
                let fired = fired(&d);
                let w = format!("{:?} at {} of {}", q, pos, len);
                tr!("{}: {:?}", w, r.as_ref().ok());
                judge(q, r, pos, len, fired, name)?;
                w
            }
            1 => {
                let to = place(len, pos);
                let s = match choose(3) {
                    0 => SeekFrom::Start(to),
                    1 => SeekFrom::End((to as i128 - len as i128).clamp(-(len as i128).min(1 << 62), 1 << 40) as i64),
                    _ => SeekFrom::Current((to as i128 - pos as i128).clamp(-(pos as i128).min(1 << 62), 1 << 40) as i64),
                };
                let r = d.t.seek(s);
                keep = r.is_err();
                if let Ok(p) = r {
                    ensure!(p == (d.pos)(&d.t), "simulator", "seek returned {} but the stream stands at {}", p, (d.pos)(&d.t));
                }
                format!("{:?}", s)
            }
            2 => {
                // skip
                let n = match choose(5) {
                    0 => 0,
                    1 => len.saturating_sub(pos).saturating_add(choose(3)).saturating_sub(1),
                    2 => choose(20),
                    3 => u64::MAX - choose(3),
                    _ => u64::MAX - pos.min(5) - choose(5),
                };
                let rd = match d.rd {
                    Some(f) => f(&mut d.t),
                    None => continue,
                };
                let r = if n <= usize::MAX as u64 && chance(1, 2) { rd.skip(n as usize) } else { rd.skip_u64(n) };
                let f = fired(&d);
                core::eval(1);
                let fits = n == 0 || matches!(pos.checked_add(n), Some(e) if e <= len);
                match &r {
                    Ok(()) => {
                        ensure!(fits, "skip-too-far", "skip({}) succeeded at {} of {} in {}", n, pos, len, name);
                        let p = (d.pos)(&d.t);
                        ensure!(p == pos + n, "wrong-position", "skip({}) moved from {} to {} of {} in {}", n, pos, p, len, name);
                        keep = false;
                    }
                    Err(e) => ensure!(f || !fits, "skip-failed", "skip({}) failed with {:?} at {} of {} in {}", n, e, pos, len, name),
                }
                format!("skip {} {}", n, r.is_ok())
            }
            3 => {
                // read
                let n = choose(if chance(1, 4) { 700 } else { 20 }) as usize;
                let rd = match d.rd {
                    Some(f) => f(&mut d.t),
                    None => continue,
                };
                let mut b = vec![0xEEu8; n];
                let r = if n == 1 { rd.read().map(|x| b[0] = x) } else { rd.read_all(&mut b) };
                let f = fired(&d);
                let fits = n == 0 || matches!(pos.checked_add(n as u64), Some(e) if e <= len);
                keep = false;
                match &r {
                    Ok(()) => {
                        core::eval(1);
                        ensure!(fits, "read-too-far", "read {} bytes at {} of {} in {}", n, pos, len, name);
                        let p = (d.pos)(&d.t);
                        ensure!(p == pos + n as u64, "wrong-position", "reading {} moved from {} to {} in {}", n, pos, p, name);
                        if let Some(g) = d.byte {
                            for (i, x) in b.iter().enumerate() {
                                let w = g(&d.t, pos + i as u64);
                                ensure!(*x == w, "wrong-bytes", "byte {} is {} instead of {} in {}", pos + i as u64, x, w, name);
                            }
                        }
                    }
                    Err(e) => ensure!(f || !fits, "read-failed", "reading {} failed with {:?} at {} of {} in {}", n, e, pos, len, name),
                }
                format!("read {} {}", n, r.is_ok())
            }
            4 => {
                // write, not far beyond the end
                if pos > len.saturating_add(200) {
                    continue;
                }
                let n = choose(if chance(1, 4) { 300 } else { 20 }) as usize;
                let wr = match d.wr {
                    Some(f) => f(&mut d.t),
                    None => continue,
                };
                let b = gen_bytes(n);
                let r = if n == 1 { wr.write(b[0]) } else { wr.write_all(&b) };
                let f = fired(&d);
                keep = false;
                match &r {
                    Ok(()) => {
                        core::eval(1);
                        let (p, l) = ((d.pos)(&d.t), (d.len)(&d.t));
                        let wl = if n == 0 { len } else { len.max(pos + n as u64) };
                        ensure!(
                            p == pos + n as u64 && l == wl,
                            "wrong-position",
                            "writing {} at {} of {} left the position at {} of {} in {}",
                            n,
                            pos,
                            len,
                            p,
                            l,
                            name
                        );
                        if let Some(g) = d.byte {
                            for (i, x) in b.iter().enumerate() {
                                ensure!(g(&d.t, pos + i as u64) == *x, "wrong-bytes", "byte {} was not written in {}", pos + i as u64, name);
                            }
                        }
                    }
                    Err(e) => ensure!(f, "write-failed", "writing {} failed with {:?} in {}", n, e, name),
                }
                format!("write {} {}", n, r.is_ok())
            }
            _ => match d.resize {
                Some(g) => {
                    core::fault("length changed by someone else");
                    let n = choose(200);
                    g(&mut d.t, n);
                    format!("resize {}", n)
                }
                None => continue,
            },
        };
        // whatever did not move on purpose and did not meet a fault left the position alone
        let now = (d.pos)(&d.t);
        if keep && !fired(&d) {
            core::eval(1);
            ensure!(now == pos, "position-moved", "{} moved the position from {} to {} in {} after {}", what, pos, now, name, hist);
        } else if op == 0 {
            core::probe("query failed");
        }
        if hist.len() < 600 {
            hist += &what;
            hist += "; ";
        }
    }
    sample(|| format!("{}: {}", name, hist));
    Ok(())
}

fn fired<T>(d: &Dev<T>) -> bool {
    match &d.st {
        Some(s) => s.borrow().fired.is_some(),
        None => false,
    }
}
