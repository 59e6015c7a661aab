use crate::core::{self, Res};
use crate::ensure;
use crate::io_sim::*;
use crate::model::*;
use il2_iltags::tags::{ILTag, ILTagFactory};

mod c01;
mod c02;
mod c03;
mod c04;
mod c07;
mod c05;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c20;
mod c21;
mod typed;
mod c06;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    f: fn() -> Res<()>,
}

impl Prop {
    pub fn run(&self) -> Res<()> {
        (self.f)()
    }
}

macro_rules! props {
    ($(($id:ident, $m:ident, $q:expr, $t:expr)),* $(,)?) => {
        static ALL: &[Prop] = &[$(Prop { id: stringify!($id), quick: $q, thorough: $t, rule: $m::RULE, f: $m::run }),*];
    };
}

props!(
    (C01, c01, 220_000, 4_400_000),
    (C02, c02, 1_300_000, 26_000_000),
    (C03, c03, 1_000_000, 20_000_000),
    (C04, c04, 650_000, 13_000_000),
    (C06, c06, 5_000_000, 100_000_000),
    (C07, c07, 5_000_000, 100_000_000),
    (C05, c05, 2_200_000, 44_000_000),
    (C08, c08, 1_800_000, 36_000_000),
    (C09, c09, 150_000, 3_000_000),
    (C10, c10, 120_000, 2_400_000),
    (C11, c11, 550_000, 11_000_000),
    (C12, c12, 350_000, 7_000_000),
    (C13, c13, 400_000, 8_000_000),
    (C14, c14, 280_000, 5_600_000),
    (C15, c15, 500_000, 10_000_000),
    (C16, c16, 5_000_000, 100_000_000),
    (C17, c17, 1_100_000, 22_000_000),
    (C20, c20, 250_000, 5_000_000),
    (C21, c21, 500_000, 10_000_000),
);

pub fn all() -> &'static [Prop] {
    ALL
}

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

// ---------------------------------------------------------------------------------------------
// Shared oracles

/// The real tag holds exactly what the model says.
pub fn same(real: &dyn ILTag, model: &MTag, reg: &Reg, what: &str) -> Res<()> {
    let got = match extract(real, reg) {
        Ok(g) => g,
        Err(e) => {
            return core::viol("wrong-type", format!("{}: {} (expected {})", what, e, model.short()));
        }
    };
    core::eval(1);
    ensure!(
        got == *model,
        "wrong-value",
        "{}: decoded {} instead of {}",
        what,
        got.short(),
        model.short()
    );
    Ok(())
}

pub fn same_bytes(got: &[u8], want: &[u8], class: &str, what: &str) -> Res<()> {
    core::eval(1);
    ensure!(got == want, class, "{}: {}", what, first_diff(got, want));
    Ok(())
}

pub fn pick_src() -> SrcKind {
    core::pick(&SRC_ALL)
}

/// Ends of the encodings of a list of tags.
pub fn ends(ts: &[MTag]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut n = 0;
    for t in ts {
        n += enc(t).len();
        v.push(n);
    }
    v
}

pub fn fresh_bytes(t: &dyn ILTag, what: &str) -> Res<Vec<u8>> {
    match t.to_bytes() {
        Ok(b) => Ok(b),
        Err(e) => core::viol("serialize-failed", format!("{}: {:?}", what, e)),
    }
}

pub fn decode_slice(f: &dyn ILTagFactory, b: &[u8], what: &str) -> Res<Box<dyn ILTag>> {
    match f.from_bytes(b) {
        Ok(t) => Ok(t),
        Err(e) => core::viol("decode-failed", format!("{}: {:?} for {}", what, e, hex(b))),
    }
}
