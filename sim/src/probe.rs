//! Control over user code plugged into the library: which callback fails, how, and what it saw.
//! The state is per simulated task.
use crate::core;
use crate::io_sim::{err_id, lio_err_id, sim_err, SimErr, St};
use il2_iltags::io as lio;
use il2_iltags::tags::ErrorKind;
use std::cell::RefCell;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cb {
    Size,
    Ser,
    De,
}

/// Every error a user callback can report.
pub const SPECS: u64 = 13;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spec {
    pub variant: u64,
    pub id: u64,
}

impl Spec {
    pub fn draw() -> Spec {
        Spec {
            variant: core::choose(SPECS),
            id: 1000 + core::choose(1000),
        }
    }
    pub fn make(&self) -> ErrorKind {
        match self.variant {
            0 => ErrorKind::Boxed(Box::new(SimErr(self.id))),
            1 => ErrorKind::UnknownTag,
            2 => ErrorKind::UnsupportedTag,
            3 => ErrorKind::CorruptedData,
            4 => ErrorKind::TagTooLarge,
            5 => ErrorKind::UnexpectedTagType,
            6 => ErrorKind::UnableToSerialize,
            v => ErrorKind::IOError(self.make_io_variant(v - 7)),
        }
    }
    /// The error a user-written reader or writer reports.
    pub fn make_io(&self) -> lio::ErrorKind {
        self.make_io_variant(self.variant % 6)
    }
    fn make_io_variant(&self, v: u64) -> lio::ErrorKind {
        match v {
            0 => lio::ErrorKind::IOError(sim_err(std::io::ErrorKind::Other, self.id)),
            1 => lio::ErrorKind::BoxedError(Box::new(SimErr(self.id))),
            2 => lio::ErrorKind::UnableToReadData,
            3 => lio::ErrorKind::UnableToWriteData,
            4 => lio::ErrorKind::CorruptedData,
            _ => lio::ErrorKind::EndOfData,
        }
    }
    pub fn is(&self, e: &ErrorKind) -> bool {
        match (self.variant, e) {
            (0, ErrorKind::Boxed(b)) => match b.downcast_ref::<SimErr>() {
                Some(s) => s.0 == self.id,
                None => false,
            },
            (1, ErrorKind::UnknownTag)
            | (2, ErrorKind::UnsupportedTag)
            | (3, ErrorKind::CorruptedData)
            | (4, ErrorKind::TagTooLarge)
            | (5, ErrorKind::UnexpectedTagType)
            | (6, ErrorKind::UnableToSerialize) => true,
            (v, ErrorKind::IOError(e)) if v >= 7 => self.io_is(v - 7, e),
            _ => false,
        }
    }
    pub fn is_io(&self, e: &ErrorKind) -> bool {
        match e {
            ErrorKind::IOError(e) => self.io_is(self.variant % 6, e),
            _ => false,
        }
    }
    pub fn is_lio(&self, e: &lio::ErrorKind) -> bool {
        self.io_is(self.variant % 6, e)
    }
    fn io_is(&self, v: u64, e: &lio::ErrorKind) -> bool {
        match (v, e) {
            (0, lio::ErrorKind::IOError(x)) => err_id(x) == Some(self.id),
            (1, lio::ErrorKind::BoxedError(_)) => lio_err_id(e) == Some(self.id),
            (2, lio::ErrorKind::UnableToReadData)
            | (3, lio::ErrorKind::UnableToWriteData)
            | (4, lio::ErrorKind::CorruptedData)
            | (5, lio::ErrorKind::EndOfData) => true,
            _ => false,
        }
    }
}

#[derive(Clone, Default)]
pub struct Ctl {
    pub on: bool,
    /// which fallible callback fails (counted from 0), at which phase (0 start, 1 middle, 2 end)
    pub fail: Option<(u64, u8, Option<Spec>)>,
    /// every callback fails from the failing one on, until the fault is gone
    pub sticky: bool,
    pub fallible: u64,
    pub calls: u64,
    pub sizes: u64,
    pub fired: bool,
    /// callbacks that came after the failing one
    pub after: u64,
    /// value sizes handed to deserialize
    pub value_sizes: Vec<usize>,
    /// probe whether the reader is confined to the value
    pub confined: bool,
    /// custom id every payload must find in the factory it is given
    pub want_id: Option<u64>,
    /// stream watched for calls after the failure
    pub watch: Option<St>,
    pub calls_at_fire: Option<u64>,
}

thread_local! {
    static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
}

pub fn set(c: Ctl) {
    let _p = crate::mem::pause();
    CTL.with(|x| *x.borrow_mut() = c);
}

pub fn get() -> Ctl {
    let _p = crate::mem::pause();
    CTL.with(|x| x.borrow().clone())
}

pub fn off() {
    set(Ctl::default())
}

pub fn with<R>(f: impl FnOnce(&mut Ctl) -> R) -> R {
    let _p = crate::mem::pause();
    CTL.with(|x| f(&mut x.borrow_mut()))
}

/// Enters a callback; Some(phase) if this invocation is to fail at that phase.
pub fn enter(cb: Cb, value_size: usize) -> Option<u8> {
    core::step();
    crate::sched::yield_point(crate::sched::Y_CALLBACK);
    with(|c| {
        if !c.on {
            return None;
        }
        c.calls += 1;
        if c.fired {
            c.after += 1;
        }
        if cb == Cb::Size {
            c.sizes += 1;
            return None;
        }
        if cb == Cb::De {
            c.value_sizes.push(value_size);
        }
        let n = c.fallible;
        c.fallible += 1;
        match c.fail {
            Some((k, ph, _)) if k == n || (c.sticky && c.fired) => Some(ph),
            _ => None,
        }
    })
}

/// The error to report from the failing callback.
pub fn fire() -> ErrorKind {
    core::fault("user callback failure");
    with(|c| {
        c.fired = true;
        c.calls_at_fire = c.watch.as_ref().map(|s| s.borrow().calls);
        match c.fail {
            Some((_, _, Some(s))) => s.make(),
            _ => ErrorKind::Boxed(Box::new(SimErr(7))),
        }
    })
}
