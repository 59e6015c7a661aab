//! Simulated byte streams. Everything a real stream may legally do is decided by the tape: how many
//! bytes a call transfers, interruptions, stalls, end of data, errors at any byte, full disks, failing
//! seeks, and scribbling over the part of a read buffer it did not fill.
use crate::core::{self, chance, choose, fault, pick, range};
use crate::mem;
use crate::sched;
use crate::tr;
use il2_iltags::io as lio;
use il2_iltags::io::array::{BorrowedVecWriter, ByteArrayReader, ByteArrayWriter, MemoryReader, VecReader, VecWriter};
use il2_iltags::io::{LimitedReader, ReadReader, Reader, WriteWriter, Writer};
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{tag_downcast_ref, ILTag, ILTagFactory};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Payload of injected errors, so that their identity can be followed through the library.
#[derive(Debug)]
pub struct SimErr(pub u64);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}
impl std::error::Error for SimErr {}

pub fn sim_err(kind: io::ErrorKind, id: u64) -> io::Error {
    io::Error::new(kind, SimErr(id))
}

/// Id of the injected error inside an io::Error.
pub fn err_id(e: &io::Error) -> Option<u64> {
    e.get_ref().and_then(|r| r.downcast_ref::<SimErr>()).map(|s| s.0)
}

/// Id of the injected error inside a library error.
pub fn lio_err_id(e: &lio::ErrorKind) -> Option<u64> {
    match e {
        lio::ErrorKind::IOError(e) => err_id(e),
        lio::ErrorKind::BoxedError(b) => match b.downcast_ref::<io::Error>() {
            Some(e) => err_id(e),
            None => b.downcast_ref::<SimErr>().map(|s| s.0),
        },
        _ => None,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Frag {
    Full,
    Fixed(usize),
    Rand(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FailHow {
    /// hard error of this kind
    Err(io::ErrorKind),
    /// end of data (reads) or zero-length write
    Zero,
}

#[derive(Clone, Copy, Debug)]
pub struct Fail {
    /// the failure strikes the call that would transfer this byte
    pub at: u64,
    pub how: FailHow,
    /// a sticky failure stays; a transient one happens once
    pub sticky: bool,
    /// a read/write that spans `at` transfers the bytes before it first (otherwise the whole call fails)
    pub partial: bool,
    pub id: u64,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub frag: Frag,
    pub eintr: u64, // chance in 16
    pub stall: u64, // chance in 16
    pub scribble: bool,
    pub fail: Option<Fail>,
    pub seek_fail: Option<(u64, bool)>, // index of failing seek call, sticky
    /// call that takes until every other task is done
    pub stall_at: Option<u64>,
    /// call at which the user gives up the operation (unwinds through the library)
    pub abandon_at: Option<u64>,
    /// interruptions in a row before a call goes through
    pub burst: u32,
    /// this call is interrupted so many times before it goes through
    pub eintr_at: Option<(u64, u64)>,
}

/// Payload of the unwinding that abandons an operation.
pub struct Abandon;

impl Plan {
    pub fn clean() -> Plan {
        Plan {
            frag: Frag::Full,
            eintr: 0,
            stall: 0,
            scribble: false,
            fail: None,
            seek_fail: None,
            stall_at: None,
            abandon_at: None,
            burst: 4,
            eintr_at: None,
        }
    }

    /// Legal behaviour only: nothing here may change any result.
    pub fn benign(len: usize) -> Plan {
        let min = len / 256 + 1;
        let frag = match choose(8) {
            0 => Frag::Full,
            1 | 2 => Frag::Fixed(min),
            3 => Frag::Fixed(min + choose(16) as usize),
            4 => Frag::Fixed(min * (1 + choose(64) as usize)),
            _ => Frag::Rand(min),
        };
        Plan {
            frag,
            eintr: pick(&[0, 0, 1, 4, 10]),
            stall: pick(&[0, 0, 0, 2]),
            scribble: chance(1, 2),
            fail: None,
            seek_fail: None,
            stall_at: None,
            abandon_at: None,
            burst: 4,
            eintr_at: None,
        }
    }
}

pub const HARD_KINDS: [io::ErrorKind; 12] = [
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::Other,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
];

pub struct StreamState {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub calls: u64,
    pub seeks: u64,
    eintr_run: u32,
    /// bytes handed out / accepted
    pub moved: u64,
    pub high: u64,
    pub fired: Option<u64>,
    pub after_fail: u64,
    /// a full device accepts no byte beyond this size
    pub flushes: u64,
}

pub type St = Rc<RefCell<StreamState>>;

pub fn stream(data: Vec<u8>, plan: Plan) -> St {
    let _p = mem::pause();
    Rc::new(RefCell::new(StreamState {
        data,
        pos: 0,
        plan,
        calls: 0,
        seeks: 0,
        eintr_run: 0,
        moved: 0,
        high: 0,
        fired: None,
        after_fail: 0,
        flushes: 0,
    }))
}

fn frag_len(f: Frag, max: usize) -> usize {
    let n = match f {
        Frag::Full => max,
        Frag::Fixed(k) => k.min(max),
        Frag::Rand(k) => {
            if max <= k {
                max
            } else {
                range(k as u64, max as u64) as usize
            }
        }
    };
    n.max(1).min(max)
}

impl StreamState {
    fn pre(&mut self) -> io::Result<()> {
        self.calls += 1;
        core::step();
        sched::yield_point(sched::Y_IO);
        if self.fired.is_some() {
            self.after_fail += 1;
        }
        if self.plan.stall_at == Some(self.calls) {
            fault("stream stalled until all others are done");
            sched::stall_until_others_done();
        }
        if self.plan.abandon_at == Some(self.calls) {
            fault("operation abandoned");
            std::panic::panic_any(Abandon);
        }
        if let Some((at, n)) = self.plan.eintr_at {
            if self.calls >= at && n > 0 {
                self.plan.eintr_at = Some((at, n - 1));
                fault("EINTR (storm)");
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        if self.plan.eintr > 0 && self.eintr_run < self.plan.burst && chance(self.plan.eintr, 16) {
            self.eintr_run += 1;
            fault("EINTR");
            core::ev(0xe1, self.pos, 0);
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.eintr_run = 0;
        if self.plan.stall > 0 && chance(self.plan.stall, 16) {
            fault("stall");
            core::advance(1_000_000 * (1 + choose(1000)));
        }
        core::advance(1_000);
        Ok(())
    }

    /// Applies the failure plan; Ok(max) limits the transfer.
    fn strike(&mut self, want: usize) -> Result<usize, Option<io::Error>> {
        if let Some(f) = self.plan.fail {
            let end = self.pos.saturating_add(want as u64);
            let hit = self.pos >= f.at || (!f.partial && end > f.at);
            if hit {
                if !f.sticky {
                    self.plan.fail = None;
                }
                self.fired = Some(f.id);
                core::ev(0xe2, self.pos, f.id);
                return match f.how {
                    FailHow::Err(k) => {
                        fault("hard I/O error");
                        Err(Some(sim_err(k, f.id)))
                    }
                    FailHow::Zero => {
                        fault("end of data / zero-length transfer");
                        Err(None)
                    }
                };
            }
            return Ok(want.min((f.at - self.pos) as usize));
        }
        Ok(want)
    }

    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _p = mem::pause();
        self.pre()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let max = match self.strike(buf.len()) {
            Ok(n) => n,
            Err(Some(e)) => {
                if self.plan.scribble {
                    buf.iter_mut().for_each(|b| *b = 0xA5);
                }
                return Err(e);
            }
            Err(None) => return Ok(0),
        };
        let p = (self.pos.min(self.data.len() as u64)) as usize;
        let avail = self.data.len() - p;
        let n = max.min(avail);
        if n == 0 {
            fault("end of stream");
            return Ok(0);
        }
        let n = frag_len(self.plan.frag, n);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        if n < buf.len() {
            fault("short read");
            if self.plan.scribble {
                buf[n..].iter_mut().for_each(|b| *b = 0x5A);
            }
        }
        self.pos += n as u64;
        self.moved += n as u64;
        self.high = self.high.max(self.pos);
        core::ev(0x11, self.pos, n as u64);
        Ok(n)
    }

    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _p = mem::pause();
        self.pre()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let max = match self.strike(buf.len()) {
            Ok(n) => n,
            Err(Some(e)) => return Err(e),
            Err(None) => return Ok(0),
        };
        let n = frag_len(self.plan.frag, max);
        if n < buf.len() {
            fault("short write");
        }
        let p = self.pos as usize;
        if p > self.data.len() {
            self.data.resize(p, 0);
        }
        let over = (self.data.len() - p).min(n);
        self.data[p..p + over].copy_from_slice(&buf[..over]);
        self.data.extend_from_slice(&buf[over..n]);
        self.pos += n as u64;
        self.moved += n as u64;
        self.high = self.high.max(self.pos);
        core::ev(0x12, self.pos, n as u64);
        Ok(n)
    }

    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let _p = mem::pause();
        core::step();
        sched::yield_point(sched::Y_IO);
        let idx = self.seeks;
        self.seeks += 1;
        if let Some((at, sticky)) = self.plan.seek_fail {
            if idx == at || (sticky && idx > at) {
                fault("seek failure");
                self.fired = Some(900);
                return Err(sim_err(io::ErrorKind::Other, 900));
            }
        }
        let np: i128 = match to {
            io::SeekFrom::Start(p) => p as i128,
            io::SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = np as u64;
        core::ev(0x13, self.pos, idx);
        Ok(self.pos)
    }
}

macro_rules! stream_type {
    ($name:ident $(, $cap:ident)*) => {
        pub struct $name(pub St);
        $( stream_type!(@ $cap $name); )*
    };
    (@ R $name:ident) => {
        impl io::Read for $name {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.0.borrow_mut().read(buf) }
        }
    };
    (@ W $name:ident) => {
        impl io::Write for $name {
            fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.0.borrow_mut().write(buf) }
            fn flush(&mut self) -> io::Result<()> { self.0.borrow_mut().flushes += 1; Ok(()) }
        }
    };
    (@ S $name:ident) => {
        impl io::Seek for $name {
            fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> { self.0.borrow_mut().seek(to) }
        }
    };
}
stream_type!(RStream, R);
stream_type!(RSStream, R, S);
stream_type!(WStream, W);
stream_type!(WSStream, W, S);
stream_type!(RWSStream, R, W, S);
stream_type!(SStream, S);

/// A user-written Reader that implements only the required method, on top of a simulated stream.
pub struct SimReader(pub St);
impl Reader for SimReader {
    fn read(&mut self) -> lio::Result<u8> {
        let mut b = [0u8; 1];
        loop {
            match self.0.borrow_mut().read(&mut b) {
                Ok(1) => return Ok(b[0]),
                Ok(_) => return Err(lio::ErrorKind::EndOfData),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => return Err(lio::ErrorKind::IOError(e)),
            }
        }
    }
}

/// A user-written Reader over memory with atomic bulk operations (fails without moving).
pub struct AtomicReader(pub St);
impl AtomicReader {
    fn get(&mut self, n: u64) -> lio::Result<std::ops::Range<usize>> {
        let _p = mem::pause();
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        core::step();
        sched::yield_point(sched::Y_IO);
        let end = s.pos.checked_add(n);
        let lim = s.plan.fail.map(|f| f.at).unwrap_or(u64::MAX).min(s.data.len() as u64);
        match end {
            Some(e) if e <= lim => {
                let r = s.pos as usize..e as usize;
                s.pos = e;
                s.moved += n;
                s.high = s.high.max(s.pos);
                core::ev(0x14, s.pos, n);
                Ok(r)
            }
            _ => {
                let id = s.plan.fail.map(|f| f.id).unwrap_or(1);
                s.fired = Some(id);
                if let Some(f) = s.plan.fail {
                    if !f.sticky {
                        s.plan.fail = None;
                    }
                }
                fault("hard I/O error");
                Err(lio::ErrorKind::BoxedError(Box::new(SimErr(id))))
            }
        }
    }
}
impl Reader for AtomicReader {
    fn read(&mut self) -> lio::Result<u8> {
        let r = self.get(1)?;
        Ok(self.0.borrow().data[r.start])
    }
    fn read_all(&mut self, buff: &mut [u8]) -> lio::Result<()> {
        let r = self.get(buff.len() as u64)?;
        buff.copy_from_slice(&self.0.borrow().data[r]);
        Ok(())
    }
    fn skip(&mut self, n: usize) -> lio::Result<()> {
        self.get(n as u64)?;
        Ok(())
    }
}

/// A medium far larger than memory: the given parts, and elsewhere bytes that are a function of their
/// position.
pub struct Sparse {
    pub parts: std::collections::BTreeMap<u64, Vec<u8>>,
    pub len: u64,
    pub pos: u64,
    /// most bytes one call transfers
    pub most: usize,
    /// chance in 16 of an interruption
    pub eintr: u64,
    pub calls: u64,
}
impl Sparse {
    pub fn new(len: u64) -> Sparse {
        Sparse {
            parts: Default::default(),
            len,
            pos: 0,
            most: pick(&[1usize, 2, 5, 64, 1 << 20]),
            eintr: pick(&[0u64, 0, 3]),
            calls: 0,
        }
    }
    pub fn byte(&self, at: u64) -> u8 {
        if let Some((s, b)) = self.parts.range(..=at).next_back() {
            if at - s < b.len() as u64 {
                return b[(at - s) as usize];
            }
        }
        core::mix(at) as u8
    }
    fn call(&mut self) -> io::Result<()> {
        self.calls += 1;
        core::step();
        sched::yield_point(sched::Y_IO);
        if self.eintr > 0 && choose(16) < self.eintr {
            fault("EINTR");
            return Err(io::ErrorKind::Interrupted.into());
        }
        Ok(())
    }
}
impl io::Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let _p = mem::pause();
        self.call()?;
        let n = (b.len().min(self.most) as u64).min(self.len.saturating_sub(self.pos)) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() {
            *x = self.byte(self.pos + i as u64);
        }
        if n < b.len() {
            fault("short transfer");
        }
        core::ev(0x15, self.pos, n as u64);
        self.pos += n as u64;
        Ok(n)
    }
}
impl io::Seek for Sparse {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        let _p = mem::pause();
        core::step();
        let p: i128 = match to {
            io::SeekFrom::Start(p) => p as i128,
            io::SeekFrom::End(d) => self.len as i128 + d as i128,
            io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// A user-written Reader over such a medium whose operations are all or nothing.
pub struct SparseReader(pub Sparse);
impl SparseReader {
    fn get(&mut self, n: u64) -> lio::Result<u64> {
        let _p = mem::pause();
        self.0.calls += 1;
        core::step();
        match self.0.pos.checked_add(n) {
            Some(e) if e <= self.0.len => {
                let at = self.0.pos;
                self.0.pos = e;
                core::ev(0x16, at, n);
                Ok(at)
            }
            _ => Err(lio::ErrorKind::EndOfData),
        }
    }
}
impl Reader for SparseReader {
    fn read(&mut self) -> lio::Result<u8> {
        let at = self.get(1)?;
        Ok(self.0.byte(at))
    }
    fn read_all(&mut self, b: &mut [u8]) -> lio::Result<()> {
        let at = self.get(b.len() as u64)?;
        for (i, x) in b.iter_mut().enumerate() {
            *x = self.0.byte(at + i as u64);
        }
        Ok(())
    }
    fn skip(&mut self, n: usize) -> lio::Result<()> {
        self.get(n as u64).map(|_| ())
    }
    fn skip_u64(&mut self, n: u64) -> lio::Result<()> {
        self.get(n).map(|_| ())
    }
}

/// A user-written Writer that implements only the required methods.
pub struct SimWriter(pub St);
impl Writer for SimWriter {
    fn write(&mut self, v: u8) -> lio::Result<()> {
        loop {
            match self.0.borrow_mut().write(&[v]) {
                Ok(1) => return Ok(()),
                Ok(_) => return Err(lio::ErrorKind::UnableToWriteData),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
                Err(e) => return Err(lio::ErrorKind::IOError(e)),
            }
        }
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Lets a `&mut dyn Reader` be used where a sized Reader is needed, forwarding every method.
pub struct DynR<'a>(pub &'a mut dyn Reader);
impl<'a> Reader for DynR<'a> {
    fn read(&mut self) -> lio::Result<u8> {
        self.0.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> lio::Result<()> {
        self.0.read_all(b)
    }
    fn skip(&mut self, n: usize) -> lio::Result<()> {
        self.0.skip(n)
    }
    fn skip_u64(&mut self, n: u64) -> lio::Result<()> {
        self.0.skip_u64(n)
    }
}

/// The same for writers.
pub struct DynW<'a>(pub &'a mut dyn Writer);
impl<'a> Writer for DynW<'a> {
    fn write(&mut self, v: u8) -> lio::Result<()> {
        self.0.write(v)
    }
    fn write_all(&mut self, b: &[u8]) -> lio::Result<()> {
        self.0.write_all(b)
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

// ---------------------------------------------------------------------------------------------
// Sources

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SrcKind {
    Array,
    Vec,
    Cursor,
    CursorSlice,
    ReadReader,
    ReadSlice,
    Seekable,
    BufSeekable,
    ReadBuf,
    User,
    UserAtomic,
    Limited,
    Nested,
    Framed,
}
pub const SRC_ALL: [SrcKind; 14] = [
    SrcKind::Array,
    SrcKind::Vec,
    SrcKind::Cursor,
    SrcKind::CursorSlice,
    SrcKind::ReadReader,
    SrcKind::ReadSlice,
    SrcKind::Seekable,
    SrcKind::BufSeekable,
    SrcKind::ReadBuf,
    SrcKind::User,
    SrcKind::UserAtomic,
    SrcKind::Limited,
    SrcKind::Nested,
    SrcKind::Framed,
];
/// Sources that sit on a simulated stream and follow its fault plan byte by byte.
pub const SRC_FAULTY: [SrcKind; 6] = [
    SrcKind::ReadReader,
    SrcKind::Seekable,
    SrcKind::User,
    SrcKind::UserAtomic,
    SrcKind::Limited,
    SrcKind::Nested,
];

pub trait Src {
    fn r(&mut self) -> &mut dyn Reader;
    /// bytes consumed so far, when observable
    fn pos(&mut self) -> Option<u64>;
}

struct FnSrc<T, P> {
    r: T,
    p: P,
}
impl<T: Reader, P: FnMut(&mut T) -> Option<u64>> Src for FnSrc<T, P> {
    fn r(&mut self) -> &mut dyn Reader {
        &mut self.r
    }
    fn pos(&mut self) -> Option<u64> {
        (self.p)(&mut self.r)
    }
}

/// Runs `f` over a source of the given kind that serves `data` under `plan`. The stream state is
/// handed over for the kinds built on a simulated stream.
pub fn with_source<R>(kind: SrcKind, data: &[u8], plan: Plan, f: impl FnOnce(&mut dyn Src, Option<&St>) -> R) -> R {
    use SrcKind::*;
    core::ev(0x20, kind as u64, data.len() as u64);
    core::grant_steps(32 * data.len() as u64);
    tr!("source {:?} of {} bytes, plan {:?}", kind, data.len(), plan);
    match kind {
        Array => f(
            &mut FnSrc {
                r: ByteArrayReader::new(data),
                p: |r: &mut ByteArrayReader| Some(r.offset() as u64),
            },
            None,
        ),
        Vec => f(
            &mut FnSrc {
                r: VecReader::new(data),
                p: |r: &mut VecReader| Some(r.offset() as u64),
            },
            None,
        ),
        Cursor => f(
            &mut FnSrc {
                r: io::Cursor::new(data.to_vec()),
                p: |r: &mut io::Cursor<std::vec::Vec<u8>>| Some(r.position()),
            },
            None,
        ),
        CursorSlice => f(
            &mut FnSrc {
                r: io::Cursor::new(data),
                p: |r: &mut io::Cursor<&[u8]>| Some(r.position()),
            },
            None,
        ),
        ReadReader => {
            let st = stream(data.to_vec(), plan);
            let mut s = RStream(st.clone());
            let st2 = st.clone();
            f(
                &mut FnSrc {
                    r: lio::ReadReader::new(&mut s),
                    p: move |_: &mut lio::ReadReader<RStream>| Some(st2.borrow().pos),
                },
                Some(&st),
            )
        }
        ReadSlice => {
            let mut s: &[u8] = data;
            f(
                &mut FnSrc {
                    r: lio::ReadReader::new(&mut s),
                    p: |_: &mut lio::ReadReader<&[u8]>| None,
                },
                None,
            )
        }
        Seekable => {
            let st = stream(data.to_vec(), plan);
            f(
                &mut FnSrc {
                    r: RSStream(st.clone()),
                    p: |s: &mut RSStream| Some(s.0.borrow().pos),
                },
                Some(&st),
            )
        }
        BufSeekable => {
            let st = stream(data.to_vec(), plan);
            let cap = pick(&[1usize, 2, 3, 7, 8, 16, 64, 512, 8192]);
            f(
                &mut FnSrc {
                    r: io::BufReader::with_capacity(cap, RSStream(st.clone())),
                    p: |s: &mut io::BufReader<RSStream>| {
                        let b = s.buffer().len() as u64;
                        Some(s.get_ref().0.borrow().pos - b)
                    },
                },
                Some(&st),
            )
        }
        ReadBuf => {
            let st = stream(data.to_vec(), plan);
            let cap = pick(&[1usize, 2, 3, 7, 8, 16, 64, 512, 8192]);
            let mut b = io::BufReader::with_capacity(cap, RStream(st.clone()));
            f(
                &mut FnSrc {
                    r: lio::ReadReader::new(&mut b),
                    p: |_: &mut lio::ReadReader<io::BufReader<RStream>>| None,
                },
                Some(&st),
            )
        }
        User => {
            let st = stream(data.to_vec(), plan);
            f(
                &mut FnSrc {
                    r: SimReader(st.clone()),
                    p: |s: &mut SimReader| Some(s.0.borrow().pos),
                },
                Some(&st),
            )
        }
        UserAtomic => {
            let st = stream(data.to_vec(), plan);
            f(
                &mut FnSrc {
                    r: AtomicReader(st.clone()),
                    p: |s: &mut AtomicReader| Some(s.0.borrow().pos),
                },
                Some(&st),
            )
        }
        Limited => {
            let st = stream(data.to_vec(), plan);
            let mut s = RStream(st.clone());
            let mut rr = lio::ReadReader::new(&mut s);
            let n = data.len();
            f(
                &mut FnSrc {
                    r: LimitedReader::new(&mut rr, n),
                    p: move |l: &mut LimitedReader| Some((n - l.available()) as u64),
                },
                Some(&st),
            )
        }
        Nested => {
            let st = stream(data.to_vec(), plan);
            let mut s = RSStream(st.clone());
            let n = data.len();
            let mut l1 = LimitedReader::new(&mut s, n + 5);
            let mut l2 = LimitedReader::new(&mut l1, n);
            f(
                &mut FnSrc {
                    r: LimitedReader::new(&mut l2, n),
                    p: move |l: &mut LimitedReader| Some((n - l.available()) as u64),
                },
                Some(&st),
            )
        }
        Framed => {
            let mut framed = std::vec::Vec::new();
            let mut sizes = std::vec::Vec::new();
            let mut at = 0;
            while at < data.len() {
                let n = (data.len() / 6 + 1 + choose(12) as usize).min(data.len() - at);
                sizes.push(n);
                framed.extend(crate::model::enc(&frame(sizes.len(), &data[at..at + n])));
                at += n;
            }
            let plan = Plan { frag: Frag::Rand(framed.len() / 64 + 1), fail: None, seek_fail: None, ..plan };
            let st = stream(framed, plan);
            f(
                &mut FnSrc {
                    r: FramedReader { src: RStream(st), factory: ILStandardTagFactory::new(false), frames: 0, buf: std::vec::Vec::new(), at: 0, served: 0, total: data.len() as u64 },
                    p: |r: &mut FramedReader| Some(r.served),
                },
                None,
            )
        }
    }
}

/// A frame of the transport below: bytes carried in tags.
fn frame(no: usize, data: &[u8]) -> crate::model::MTag {
    use crate::model::{Kind, MTag, Val};
    let tag = |id, kind, val| MTag { id, kind, val };
    let mut m = std::collections::BTreeMap::new();
    m.insert("no".to_string(), no.to_string());
    m.insert("".to_string(), "of".to_string());
    let v = vec![
        tag(17, Kind::Str, Val::Str(format!("frame {}", no))),
        tag(31, Kind::StrDict, Val::StrDict(m)),
        tag(20, Kind::IntArr, Val::Ints(vec![no as u64, data.len() as u64])),
        tag(16, Kind::Bytes, Val::Bytes(data.to_vec())),
    ];
    tag(21 + (no as u64 % 2), if no % 2 == 0 { Kind::TagArr } else { Kind::Seq }, Val::Tags(v))
}

/// The same frame made of real tags.
fn real_frame(no: usize, data: &[u8]) -> Box<dyn ILTag> {
    let mut d = ILStrDictTag::new();
    d.insert("no", &no.to_string());
    d.insert("", "of");
    let v: Vec<Box<dyn ILTag>> = vec![
        Box::new(ILStringTag::with_value(&format!("frame {}", no))),
        Box::new(d),
        Box::new(ILILIntArrayTag::with_value(&[no as u64, data.len() as u64])),
        Box::new(ILByteArrayTag::with_value(data)),
    ];
    if no % 2 == 0 {
        let mut t = ILTagArrayTag::new();
        *t.mut_value() = v;
        Box::new(t)
    } else {
        let mut t = ILTagSeqTag::new();
        *t.mut_value() = v;
        Box::new(t)
    }
}

/// A user-written Reader that unpacks the frames of a transport with the library while the library
/// reads from it.
pub struct FramedReader {
    src: RStream,
    factory: ILStandardTagFactory,
    frames: usize,
    buf: Vec<u8>,
    at: usize,
    pub served: u64,
    total: u64,
}
impl FramedReader {
    fn fill(&mut self) -> lio::Result<()> {
        let _p = mem::pause();
        self.frames += 1;
        let mut r = lio::ReadReader::new(&mut self.src);
        let t = match self.factory.deserialize(&mut r) {
            Ok(t) => t,
            Err(e) => {
                core::pending("decode-failed", format!("frame {} inside a read call: {:?}", self.frames, e));
                return Err(lio::ErrorKind::CorruptedData);
            }
        };
        let kids = match tag_downcast_ref::<ILTagArrayTag>(t.as_ref()) {
            Some(a) => a.value(),
            None => match tag_downcast_ref::<ILTagSeqTag>(t.as_ref()) {
                Some(a) => a.value(),
                None => {
                    core::pending("wrong-value", format!("frame {} inside a read call has id {}", self.frames, t.id()));
                    return Err(lio::ErrorKind::CorruptedData);
                }
            },
        };
        let data = kids.get(3).and_then(|k| tag_downcast_ref::<ILByteArrayTag>(k.as_ref())).map(|b| b.value().clone()).unwrap_or_default();
        if enc_is_not(t.as_ref(), self.frames, &data) {
            core::pending("wrong-value", format!("frame {} changed when it was decoded inside a read call", self.frames));
            return Err(lio::ErrorKind::CorruptedData);
        }
        self.buf = data;
        self.at = 0;
        Ok(())
    }
}
fn enc_is_not(t: &dyn ILTag, no: usize, data: &[u8]) -> bool {
    match t.to_bytes() {
        Ok(b) => b != crate::model::enc(&frame(no, data)),
        Err(_) => true,
    }
}
impl Reader for FramedReader {
    fn read(&mut self) -> lio::Result<u8> {
        if self.served >= self.total {
            return Err(lio::ErrorKind::EndOfData);
        }
        if self.at >= self.buf.len() {
            self.fill()?;
        }
        let b = match self.buf.get(self.at) {
            Some(b) => *b,
            None => return Err(lio::ErrorKind::CorruptedData),
        };
        self.at += 1;
        self.served += 1;
        Ok(b)
    }
}

/// A user-written Writer that packs what it is given into frames with the library while the library
/// writes to it.
pub struct FramedWriter {
    dst: WStream,
    frames: usize,
    most: usize,
    buf: Vec<u8>,
    all: Vec<u8>,
    want: Vec<u8>,
}
impl FramedWriter {
    fn flush(&mut self) -> lio::Result<()> {
        if self.buf.is_empty() {
            return Ok(());
        }
        let _p = mem::pause();
        let t = real_frame(self.frames, &self.buf);
        self.want.extend(crate::model::enc(&frame(self.frames, &self.buf)));
        self.frames += 1;
        self.all.append(&mut self.buf);
        if let Err(e) = t.serialize(&mut WriteWriter::new(&mut self.dst)) {
            core::pending("serialize-failed", format!("frame {} inside a write call: {:?}", self.frames, e));
            return Err(lio::ErrorKind::UnableToWriteData);
        }
        Ok(())
    }
}
impl Writer for FramedWriter {
    fn write(&mut self, v: u8) -> lio::Result<()> {
        self.buf.push(v);
        if self.buf.len() >= self.most {
            self.flush()?;
        }
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

// ---------------------------------------------------------------------------------------------
// Sinks

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SnkKind {
    Vec,
    BorrowedVec,
    Array,
    Cursor,
    WriteWriter,
    WriteVec,
    Seekable,
    BufSeekable,
    WriteBuf,
    User,
    Pair,
    Framed,
}
pub const SNK_ALL: [SnkKind; 12] = [
    SnkKind::Vec,
    SnkKind::BorrowedVec,
    SnkKind::Array,
    SnkKind::Cursor,
    SnkKind::WriteWriter,
    SnkKind::WriteVec,
    SnkKind::Seekable,
    SnkKind::BufSeekable,
    SnkKind::WriteBuf,
    SnkKind::User,
    SnkKind::Pair,
    SnkKind::Framed,
];

/// Runs `f` over a sink of the given kind and returns the bytes the sink finally holds. `cap` is the
/// capacity of bounded sinks.
pub fn with_sink<R>(kind: SnkKind, cap: usize, plan: Plan, f: impl FnOnce(&mut dyn Writer, Option<&St>) -> R) -> (R, Vec<u8>) {
    core::grant_steps(32 * cap.min(1 << 26) as u64);
    use io::Write;
    core::ev(0x21, kind as u64, cap as u64);
    tr!("sink {:?} capacity {} plan {:?}", kind, cap, plan);
    match kind {
        SnkKind::Vec => {
            let mut w = if chance(1, 2) { VecWriter::new() } else { VecWriter::with_capacity(choose(100) as usize) };
            let r = f(&mut w, None);
            (r, w.into())
        }
        SnkKind::BorrowedVec => {
            let pre = choose(4) as usize;
            let mut v: Vec<u8> = vec![0xEE; pre];
            let r = {
                let mut w = BorrowedVecWriter::with_offset(&mut v, pre + choose(3) as usize);
                f(&mut w, None)
            };
            if v.len() < pre || v[..pre].iter().any(|b| *b != 0xEE) {
                core::pending("writer-clobbered", "BorrowedVecWriter changed bytes before its offset".into());
            }
            (r, v[pre.min(v.len())..].to_vec())
        }
        SnkKind::Array => {
            let mut v = vec![0xEEu8; cap + 8];
            let (r, n) = {
                let mut w = ByteArrayWriter::new(&mut v[..cap]);
                let r = f(&mut w, None);
                (r, w.get_offset())
            };
            if v[n.min(cap + 8)..].iter().any(|b| *b != 0xEE) {
                core::pending("writer-clobbered", "ByteArrayWriter wrote beyond its offset".into());
            }
            v.truncate(n);
            (r, v)
        }
        SnkKind::Cursor => {
            let mut c = io::Cursor::new(Vec::new());
            let r = f(&mut c, None);
            (r, c.into_inner())
        }
        SnkKind::WriteWriter => {
            let st = stream(Vec::new(), plan);
            let mut s = WStream(st.clone());
            let r = {
                let mut w = WriteWriter::new(&mut s);
                f(&mut w, Some(&st))
            };
            let d = st.borrow().data.clone();
            (r, d)
        }
        SnkKind::WriteVec => {
            let mut v: Vec<u8> = Vec::new();
            let r = {
                let mut w = WriteWriter::new(&mut v);
                f(&mut w, None)
            };
            (r, v)
        }
        SnkKind::Seekable => {
            let st = stream(Vec::new(), plan);
            let mut s = WSStream(st.clone());
            let r = f(&mut s, Some(&st));
            let d = st.borrow().data.clone();
            (r, d)
        }
        SnkKind::BufSeekable => {
            let st = stream(Vec::new(), plan);
            let cap = pick(&[1usize, 2, 7, 8, 64, 8192]);
            let mut s = io::BufWriter::with_capacity(cap, WSStream(st.clone()));
            let r = f(&mut s, Some(&st));
            let _ = io::Write::flush(&mut s);
            let d = st.borrow().data.clone();
            (r, d)
        }
        SnkKind::WriteBuf => {
            let st = stream(Vec::new(), plan);
            let cap = pick(&[1usize, 2, 7, 8, 64, 8192]);
            let mut s = io::BufWriter::with_capacity(cap, WStream(st.clone()));
            let r = {
                let mut w = WriteWriter::new(&mut s);
                f(&mut w, Some(&st))
            };
            let _ = s.flush();
            let d = st.borrow().data.clone();
            (r, d)
        }
        SnkKind::User => {
            let st = stream(Vec::new(), plan);
            let mut s = SimWriter(st.clone());
            let r = f(&mut s, Some(&st));
            let d = st.borrow().data.clone();
            (r, d)
        }
        SnkKind::Pair => {
            // a writer reached through as_writer()
            let st = stream(Vec::new(), plan);
            let mut s = WStream(st.clone());
            let r = {
                let mut w = WriteWriter::new(&mut s);
                f(w.as_writer(), Some(&st))
            };
            let d = st.borrow().data.clone();
            (r, d)
        }
        SnkKind::Framed => {
            let most = pick(&[3usize, 20, 100]) + cap / 6 + choose(12) as usize;
            let plan = Plan { frag: Frag::Rand(cap / 64 + 8), fail: None, seek_fail: None, ..plan };
            let st = stream(Vec::new(), plan);
            let mut w = FramedWriter { dst: WStream(st.clone()), frames: 0, most, buf: Vec::new(), all: Vec::new(), want: Vec::new() };
            let r = f(&mut w, None);
            let _ = w.flush();
            if st.borrow().data != w.want {
                core::pending("wrong-bytes", "frames serialized inside write calls differ from their encoding".into());
            }
            (r, w.all)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Bounded pipe between tasks

pub struct PipeState {
    buf: std::collections::VecDeque<u8>,
    cap: usize,
    closed: bool,
    key: u64,
    pub total: u64,
}

#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<PipeState>>, pub Plan);

pub fn pipe(cap: usize, key: u64, plan: Plan) -> Pipe {
    Pipe(
        Arc::new(Mutex::new(PipeState {
            buf: Default::default(),
            cap,
            closed: false,
            key,
            total: 0,
        })),
        plan,
    )
}

impl Pipe {
    pub fn close(&self) {
        let mut g = self.0.lock().unwrap_or_else(|p| p.into_inner());
        g.closed = true;
        sched::wake(g.key);
    }
    fn eintr(&self) -> io::Result<()> {
        core::step();
        sched::yield_point(sched::Y_IO);
        core::advance(1_000);
        // sometimes only: an endless run of interruptions is not a legal stream
        if self.1.eintr > 0 && chance(self.1.eintr.min(8), 16) {
            fault("EINTR");
            return Err(io::ErrorKind::Interrupted.into());
        }
        Ok(())
    }
}

impl io::Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _p = mem::pause();
        if buf.is_empty() {
            return Ok(0);
        }
        self.eintr()?;
        loop {
            let key = {
                let mut g = self.0.lock().unwrap_or_else(|p| p.into_inner());
                if !g.buf.is_empty() {
                    let n = frag_len(self.1.frag, buf.len().min(g.buf.len()));
                    for b in buf[..n].iter_mut() {
                        *b = g.buf.pop_front().unwrap();
                    }
                    if n < buf.len() {
                        fault("short read");
                    }
                    core::ev(0x15, n as u64, g.buf.len() as u64);
                    sched::wake(g.key);
                    return Ok(n);
                }
                if g.closed {
                    return Ok(0);
                }
                g.key
            };
            fault("pipe empty: reader blocked");
            sched::block(key);
        }
    }
}

impl io::Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _p = mem::pause();
        if buf.is_empty() {
            return Ok(0);
        }
        self.eintr()?;
        loop {
            let key = {
                let mut g = self.0.lock().unwrap_or_else(|p| p.into_inner());
                if g.closed {
                    return Err(io::ErrorKind::BrokenPipe.into());
                }
                let room = g.cap - g.buf.len();
                if room > 0 {
                    let n = frag_len(self.1.frag, buf.len().min(room));
                    g.buf.extend(&buf[..n]);
                    g.total += n as u64;
                    if n < buf.len() {
                        fault("short write");
                    }
                    core::ev(0x16, n as u64, g.buf.len() as u64);
                    sched::wake(g.key);
                    return Ok(n);
                }
                g.key
            };
            fault("pipe full: writer blocked");
            sched::block(key);
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Random fault position biased to the given interesting offsets.
pub fn cut_pos(len: usize, marks: &[usize]) -> u64 {
    if len == 0 {
        return 0;
    }
    if !marks.is_empty() && chance(1, 2) {
        let m = pick(marks) as i64 + range(0, 2) as i64 - 1;
        return m.clamp(0, len as i64) as u64;
    }
    range(0, len as u64)
}

#[allow(dead_code)]
fn _unused(_: &dyn MemoryReader, _: ReadReader<'_, RStream>) {}
