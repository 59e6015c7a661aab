//! Seam for hash randomness. std's `RandomState` obtains its keys once per thread through the libc
//! symbol `getrandom`, which std looks up weakly so that it may be interposed. The simulator defines
//! the symbol: the keys of a simulated process (a thread) are a function of the seed of the run.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x1234_5678) };
}
static CALLS: AtomicU64 = AtomicU64::new(0);

pub fn set_seed(s: u64) {
    SEED.with(|c| c.set(s));
}

pub fn calls() -> u64 {
    CALLS.load(Ordering::Relaxed)
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let mut s = SEED.try_with(|c| c.get()).unwrap_or(7);
    for i in 0..len {
        if i % 8 == 0 {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        }
        let v = (crate::core::mix(s) >> ((i % 8) * 8)) as u8;
        unsafe { *buf.add(i) = v };
    }
    if let Ok(()) = SEED.try_with(|c| c.set(crate::core::mix(s))) {}
    len as isize
}
