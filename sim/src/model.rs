//! The reference model: tags as plain values, an independent encoder, an independent strict parser,
//! a generator, and the bridges between model values and the library's real tags.
use crate::probe;
use crate::core::{self, chance, choose, pick, range, weighted, Prng};
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::payload::{ILGenericPayloadTag, ILTagPayload};
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{
    assert_tag_id_and_type, tag_downcast_ref, tag_downcast_ref_with_id, tag_id_downcast_ref, ErrorKind, ILDefaultWithIdTagCreator, ILRawTag, ILTag, ILTagCreator, ILTagFactory,
};
use std::collections::BTreeMap;

pub const MAX_TAG: u64 = 512 * 1024 * 1024;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Null,
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    ILInt,
    SILInt,
    F32,
    F64,
    B128,
    Bytes,
    Str,
    BigInt,
    BigDec,
    IntArr,
    TagArr,
    Seq,
    Range,
    Version,
    Oid,
    Dict,
    StrDict,
    Raw,
    Payload,
}
use Kind::*;

pub const STD: [(u64, Kind); 27] = [
    (0, Null),
    (1, Bool),
    (2, I8),
    (3, U8),
    (4, I16),
    (5, U16),
    (6, I32),
    (7, U32),
    (8, I64),
    (9, U64),
    (10, ILInt),
    (11, F32),
    (12, F64),
    (13, B128),
    (14, SILInt),
    (16, Bytes),
    (17, Str),
    (18, BigInt),
    (19, BigDec),
    (20, IntArr),
    (21, TagArr),
    (22, Seq),
    (23, Range),
    (24, Version),
    (25, Oid),
    (30, Dict),
    (31, StrDict),
];

/// Kinds that may be registered with an arbitrary explicit id.
pub const WITH_ID: [Kind; 27] = [
    Payload, Str, Seq, Dict, IntArr, Null, Bool, I8, U8, I16, U16, I32, U32, I64, U64, ILInt, SILInt, F32, F64, B128,
    BigDec, TagArr, Range, Version, Oid, StrDict, Raw,
];

pub fn std_kind(id: u64) -> Option<Kind> {
    STD.iter().find(|(i, _)| *i == id).map(|(_, k)| *k)
}
pub fn std_id(k: Kind) -> Option<u64> {
    STD.iter().find(|(_, x)| *x == k).map(|(i, _)| *i)
}

#[derive(Clone, Debug, PartialEq)]
pub struct PVal {
    pub a: u32,
    pub b: u64,
    pub c: i64,
    pub flag: u8,
    pub tag: Option<Box<MTag>>,
    pub rest: Vec<u8>,
}

impl PVal {
    pub fn blank() -> PVal {
        PVal { a: 0, b: 0, c: 0, flag: 0, tag: None, rest: Vec::new() }
    }
    /// A payload of no bytes at all.
    pub fn is_blank(&self) -> bool {
        *self == PVal::blank()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    /// fixed-size scalars as raw big-endian bytes: I8..U64, F32, F64, B128
    Fixed(Vec<u8>),
    ILInt(u64),
    SILInt(i64),
    Bytes(Vec<u8>),
    Str(String),
    BigDec(i32, Vec<u8>),
    Ints(Vec<u64>),
    Tags(Vec<MTag>),
    Range(u64, u16),
    Version([i32; 4]),
    Dict(BTreeMap<String, MTag>),
    StrDict(BTreeMap<String, String>),
    Payload(PVal),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MTag {
    pub id: u64,
    pub kind: Kind,
    pub val: Val,
}

pub fn fixed_len(k: Kind) -> Option<usize> {
    Some(match k {
        I8 | U8 => 1,
        I16 | U16 => 2,
        I32 | U32 | F32 => 4,
        I64 | U64 | F64 => 8,
        B128 => 16,
        _ => return None,
    })
}

impl MTag {
    pub fn short(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 300 {
            let mut n = 300;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}... ({} chars)", &s[..n], s.len())
        } else {
            s
        }
    }
    pub fn children(&self) -> Vec<&MTag> {
        match &self.val {
            Val::Tags(v) => v.iter().collect(),
            Val::Dict(m) => m.values().collect(),
            Val::Payload(p) => p.tag.iter().map(|t| t.as_ref()).collect(),
            _ => Vec::new(),
        }
    }
    pub fn count(&self) -> usize {
        1 + self.children().iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
}

// ---------------------------------------------------------------------------------------------
// ILInt

pub fn ilint_len(v: u64) -> usize {
    if v < 0xF8 {
        return 1;
    }
    let w = v - 0xF8;
    let mut n = 1;
    while n < 8 && (w >> (8 * n)) != 0 {
        n += 1;
    }
    1 + n
}

pub fn ilint_put(out: &mut Vec<u8>, v: u64) {
    let n = ilint_len(v);
    ilint_put_len(out, v, n);
}

/// Encodes v with exactly n bytes (n >= ilint_len(v), and n > 1 only for v >= 248).
pub fn ilint_put_len(out: &mut Vec<u8>, v: u64, n: usize) {
    if n == 1 {
        out.push(v as u8);
    } else {
        let w = v - 0xF8;
        out.push(0xF8 + (n as u8 - 2));
        for i in (0..n - 1).rev() {
            out.push((w >> (8 * i)) as u8);
        }
    }
}

pub fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
pub fn unzigzag(v: u64) -> i64 {
    ((v >> 1) as i64) ^ -((v & 1) as i64)
}

// ---------------------------------------------------------------------------------------------
// Encoder

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FK {
    Id,
    Size,
    Count,
    Int,
    Bool,
    Text,
    Data,
    Scalar,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub fk: FK,
    pub depth: usize,
}

#[derive(Clone, Debug)]
pub struct Extent {
    pub id: u64,
    pub start: usize,
    pub value: usize,
    pub end: usize,
    pub depth: usize,
}

/// Encoder; with `wide` it uses longer-than-necessary ILInts as drawn from the tape.
#[derive(Default)]
pub struct Enc {
    pub out: Vec<u8>,
    pub fields: Vec<Field>,
    pub extents: Vec<Extent>,
    pub wide: bool,
    pub depth: usize,
}

impl Enc {
    fn field(&mut self, fk: FK, start: usize) {
        let len = self.out.len() - start;
        self.fields.push(Field {
            off: start,
            len,
            fk,
            depth: self.depth,
        });
    }
    fn int(&mut self, v: u64, fk: FK) {
        let s = self.out.len();
        let mut n = ilint_len(v);
        if self.wide && n > 1 && chance(1, 2) {
            n = range(n as u64, 9) as usize;
        }
        ilint_put_len(&mut self.out, v, n);
        self.field(fk, s);
    }
    fn raw(&mut self, b: &[u8], fk: FK) {
        let s = self.out.len();
        self.out.extend_from_slice(b);
        self.field(fk, s);
    }
    fn string(&mut self, s: &str) {
        self.int(17, FK::Id);
        self.int(s.len() as u64, FK::Size);
        self.raw(s.as_bytes(), FK::Text);
    }
    pub fn tag(&mut self, t: &MTag) {
        let start = self.out.len();
        self.int(t.id, FK::Id);
        if t.id <= 15 {
            let value = self.out.len();
            self.value(t);
            let end = self.out.len();
            self.extents.push(Extent {
                id: t.id,
                start,
                value,
                end,
                depth: self.depth,
            });
            return;
        }
        // the value is encoded apart, because the header needs its length
        let mut sub = Enc {
            wide: self.wide,
            depth: self.depth + 1,
            ..Default::default()
        };
        sub.value(t);
        self.int(sub.out.len() as u64, FK::Size);
        let value = self.out.len();
        self.out.extend_from_slice(&sub.out);
        let end = self.out.len();
        for f in sub.fields {
            self.fields.push(Field {
                off: f.off + value,
                ..f
            });
        }
        self.extents.push(Extent {
            id: t.id,
            start,
            value,
            end,
            depth: self.depth,
        });
        for e in sub.extents {
            self.extents.push(Extent {
                start: e.start + value,
                value: e.value + value,
                end: e.end + value,
                ..e
            });
        }
    }
    fn value(&mut self, t: &MTag) {
        match &t.val {
            Val::Null => (),
            Val::Bool(b) => self.raw(&[*b as u8], FK::Bool),
            Val::Fixed(b) => self.raw(b, FK::Scalar),
            Val::ILInt(v) => self.int(*v, FK::Int),
            Val::SILInt(v) => self.int(zigzag(*v), FK::Int),
            Val::Bytes(b) => self.raw(b, FK::Data),
            Val::Str(s) => self.raw(s.as_bytes(), FK::Text),
            Val::BigDec(s, b) => {
                self.raw(&s.to_be_bytes(), FK::Scalar);
                self.raw(b, FK::Data);
            }
            Val::Ints(v) => {
                self.int(v.len() as u64, FK::Count);
                for x in v {
                    self.int(*x, FK::Int);
                }
            }
            Val::Tags(v) => {
                if t.kind == TagArr {
                    self.int(v.len() as u64, FK::Count);
                }
                for x in v {
                    self.tag(x);
                }
            }
            Val::Range(s, c) => {
                self.int(*s, FK::Int);
                self.raw(&c.to_be_bytes(), FK::Scalar);
            }
            Val::Version(v) => {
                for x in v {
                    self.raw(&x.to_be_bytes(), FK::Scalar);
                }
            }
            Val::Dict(m) => {
                self.int(m.len() as u64, FK::Count);
                for (k, v) in m {
                    self.string(k);
                    self.tag(v);
                }
            }
            Val::StrDict(m) => {
                self.int(m.len() as u64, FK::Count);
                for (k, v) in m {
                    self.string(k);
                    self.string(v);
                }
            }
            Val::Payload(p) if p.is_blank() => (),
            Val::Payload(p) => {
                self.raw(&p.a.to_be_bytes(), FK::Scalar);
                self.int(p.b, FK::Int);
                self.int(zigzag(p.c), FK::Int);
                self.raw(&[p.flag], FK::Scalar);
                if let Some(t) = &p.tag {
                    self.tag(t);
                }
                self.raw(&p.rest, FK::Data);
            }
        }
    }
}

pub fn enc(t: &MTag) -> Vec<u8> {
    let mut e = Enc::default();
    e.tag(t);
    e.out
}

pub fn enc_value(t: &MTag) -> Vec<u8> {
    let mut e = Enc::default();
    e.value(t);
    e.out
}

pub fn enc_all(ts: &[MTag]) -> Vec<u8> {
    let mut e = Enc::default();
    for t in ts {
        e.tag(t);
    }
    e.out
}

// ---------------------------------------------------------------------------------------------
// Parser

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PErr {
    /// the data ends before the value does
    Eof,
    Corrupt,
    TooLarge,
    Unknown,
}

#[derive(Clone, Debug)]
pub struct Reg {
    pub map: BTreeMap<u64, Kind>,
    pub strict: bool,
}

impl Reg {
    pub fn std(strict: bool) -> Reg {
        Reg {
            map: STD.iter().cloned().collect(),
            strict,
        }
    }
    pub fn kind(&self, id: u64) -> Option<Kind> {
        match self.map.get(&id) {
            Some(k) => Some(*k),
            None if id > 15 && !self.strict => Some(Raw),
            None => None,
        }
    }
    pub fn customs(&self) -> Vec<(u64, Kind)> {
        self.map
            .iter()
            .filter(|(i, k)| std_kind(**i) != Some(**k))
            .map(|(i, k)| (*i, *k))
            .collect()
    }
}

pub struct Parser<'a> {
    pub reg: &'a Reg,
    /// a dictionary repeated a key somewhere: which entry wins is not specified
    pub dup: bool,
    /// an ILInt was longer than necessary somewhere
    pub wide: bool,
    /// largest size any header claimed that was within the limit
    pub claimed: u64,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], PErr> {
        if self.b.len() - self.p < n {
            return Err(PErr::Eof);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn left(&self) -> usize {
        self.b.len() - self.p
    }
}

impl<'a> Parser<'a> {
    pub fn new(reg: &'a Reg) -> Self {
        Parser {
            reg,
            dup: false,
            wide: false,
            claimed: 0,
        }
    }

    fn int(&mut self, c: &mut Cur) -> Result<u64, PErr> {
        let h = c.take(1)?[0];
        if h < 0xF8 {
            return Ok(h as u64);
        }
        let n = (h - 0xF8) as usize + 1;
        let b = c.take(n)?;
        let mut v: u64 = 0;
        for x in b {
            v = (v << 8) | *x as u64;
        }
        match v.checked_add(0xF8) {
            Some(v) => {
                if ilint_len(v) != n + 1 {
                    self.wide = true;
                }
                Ok(v)
            }
            None => Err(PErr::Corrupt),
        }
    }

    fn string(&mut self, c: &mut Cur) -> Result<String, PErr> {
        if self.int(c)? != 17 {
            return Err(PErr::Corrupt);
        }
        let n = self.int(c)?;
        if n > MAX_TAG {
            return Err(PErr::TooLarge);
        }
        self.claimed = self.claimed.max(n);
        let b = c.take(n as usize)?;
        String::from_utf8(b.to_vec()).map_err(|_| PErr::Corrupt)
    }

    /// Parses one tag at the start of `b`.
    pub fn tag(&mut self, b: &[u8]) -> Result<(MTag, usize), PErr> {
        let mut c = Cur { b, p: 0 };
        let t = self.tag_at(&mut c)?;
        Ok((t, c.p))
    }

    fn tag_at(&mut self, c: &mut Cur) -> Result<MTag, PErr> {
        let id = self.int(c)?;
        if id <= 15 {
            let kind = self.reg.kind(id).ok_or(PErr::Unknown)?;
            // the size is implied by the id
            let n = match std_kind(id) {
                Some(Null) | None => 0,
                Some(Bool) => 1,
                Some(ILInt) | Some(SILInt) => {
                    // self-delimiting
                    let mut sub = Cur { b: c.b, p: c.p };
                    self.int(&mut sub)?;
                    sub.p - c.p
                }
                Some(k) => fixed_len(k).ok_or(PErr::Corrupt)?,
            };
            let v = c.take(n)?;
            return self.value(id, kind, v);
        }
        let n = self.int(c)?;
        if n > MAX_TAG {
            return Err(PErr::TooLarge);
        }
        let kind = self.reg.kind(id).ok_or(PErr::Unknown)?;
        self.claimed = self.claimed.max(n);
        let v = c.take(n as usize)?;
        self.value(id, kind, v)
    }

    /// Parses exactly the bytes of a value.
    pub fn value(&mut self, id: u64, kind: Kind, v: &[u8]) -> Result<MTag, PErr> {
        let mut c = Cur { b: v, p: 0 };
        let val = match kind {
            Null => Val::Null,
            Bool => match c.take(1)?[0] {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return Err(PErr::Corrupt),
            },
            I8 | U8 | I16 | U16 | I32 | U32 | I64 | U64 | F32 | F64 | B128 => {
                Val::Fixed(c.take(fixed_len(kind).unwrap())?.to_vec())
            }
            ILInt => Val::ILInt(self.int(&mut c)?),
            SILInt => Val::SILInt(unzigzag(self.int(&mut c)?)),
            Bytes | BigInt | Raw => Val::Bytes(c.take(v.len())?.to_vec()),
            Str => Val::Str(String::from_utf8(c.take(v.len())?.to_vec()).map_err(|_| PErr::Corrupt)?),
            BigDec => {
                let s = c.take(4)?;
                let s = i32::from_be_bytes([s[0], s[1], s[2], s[3]]);
                let n = c.left();
                Val::BigDec(s, c.take(n)?.to_vec())
            }
            IntArr | Oid => {
                let n = self.int(&mut c)?;
                let mut r = Vec::new();
                for _ in 0..n {
                    r.push(self.int(&mut c)?);
                }
                Val::Ints(r)
            }
            Seq => {
                let mut r = Vec::new();
                while c.left() > 0 {
                    r.push(self.tag_at(&mut c)?);
                }
                Val::Tags(r)
            }
            TagArr => {
                let n = self.int(&mut c)?;
                let mut r = Vec::new();
                for _ in 0..n {
                    r.push(self.tag_at(&mut c)?);
                }
                Val::Tags(r)
            }
            Range => {
                let s = self.int(&mut c)?;
                let b = c.take(2)?;
                Val::Range(s, u16::from_be_bytes([b[0], b[1]]))
            }
            Version => {
                let mut r = [0i32; 4];
                for x in r.iter_mut() {
                    let b = c.take(4)?;
                    *x = i32::from_be_bytes([b[0], b[1], b[2], b[3]]);
                }
                Val::Version(r)
            }
            Dict => {
                let n = self.int(&mut c)?;
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = self.string(&mut c)?;
                    let t = self.tag_at(&mut c)?;
                    if m.insert(k, t).is_some() {
                        self.dup = true;
                    }
                }
                Val::Dict(m)
            }
            StrDict => {
                let n = self.int(&mut c)?;
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = self.string(&mut c)?;
                    let t = self.string(&mut c)?;
                    if m.insert(k, t).is_some() {
                        self.dup = true;
                    }
                }
                Val::StrDict(m)
            }
            Payload if c.left() == 0 => Val::Payload(PVal::blank()),
            Payload => {
                let s = c.take(4)?;
                let a = u32::from_be_bytes([s[0], s[1], s[2], s[3]]);
                let b = self.int(&mut c)?;
                let cc = unzigzag(self.int(&mut c)?);
                let flag = c.take(1)?[0];
                let tag = if flag & 1 == 1 {
                    Some(Box::new(self.tag_at(&mut c)?))
                } else {
                    None
                };
                let n = c.left();
                let p = PVal {
                    a,
                    b,
                    c: cc,
                    flag,
                    tag,
                    rest: c.take(n)?.to_vec(),
                };
                if p.is_blank() {
                    // only the empty value says so
                    return Err(PErr::Corrupt);
                }
                Val::Payload(p)
            }
        };
        if c.left() > 0 {
            return Err(PErr::Corrupt);
        }
        Ok(MTag { id, kind, val })
    }
}

/// Key order and key uniqueness are as the encoder produces them.
pub fn parse_canonical(b: &[u8], reg: &Reg) -> Option<MTag> {
    let mut p = Parser::new(reg);
    match p.tag(b) {
        Ok((t, n)) if n == b.len() && enc(&t) == b => Some(t),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------
// User payload used by many workloads

#[derive(Default)]
pub struct RecPayload {
    pub a: u32,
    pub b: u64,
    pub c: i64,
    pub flag: u8,
    pub tag: Option<Box<dyn ILTag>>,
    pub rest: Vec<u8>,
    /// left by the creator that made the tag; not part of the value
    pub mark: u32,
}

impl RecPayload {
    /// Encoded as no bytes at all.
    fn is_blank(&self) -> bool {
        self.a == 0 && self.b == 0 && self.c == 0 && self.flag == 0 && self.tag.is_none() && self.rest.is_empty()
    }
}

impl ILTagPayload for RecPayload {
    fn serialized_size(&self) -> usize {
        probe::enter(probe::Cb::Size, 0);
        if self.is_blank() {
            return 0;
        }
        4 + ilint_len(self.b)
            + ilint_len(zigzag(self.c))
            + 1
            + self.tag.as_ref().map(|t| t.size() as usize).unwrap_or(0)
            + self.rest.len()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        let fail = probe::enter(probe::Cb::Ser, 0);
        if fail == Some(0) || (fail.is_some() && self.is_blank()) {
            return Err(probe::fire());
        }
        if self.is_blank() {
            return Ok(());
        }
        writer.serialize_value(self.a)?;
        writer.serialize_ilint(self.b)?;
        if fail == Some(1) {
            return Err(probe::fire());
        }
        writer.serialize_signed_ilint(self.c)?;
        writer.serialize_value(self.flag)?;
        if let Some(t) = &self.tag {
            t.serialize(writer)?;
        }
        writer.serialize_bytes(&self.rest)?;
        if fail == Some(2) {
            return Err(probe::fire());
        }
        Ok(())
    }
    fn deserialize(
        &mut self,
        factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> il2_iltags::tags::Result<()> {
        let fail = probe::enter(probe::Cb::De, value_size);
        let (confined, want) = probe::with(|c| (c.on && c.confined, if c.on { c.want_id } else { None }));
        if let Some(id) = want {
            let ok = match factory.create_tag(id) {
                Some(t) => tag_downcast_ref::<RecTag>(t.as_ref()).is_some() && t.id() == id,
                None => false,
            };
            if !ok {
                core::pending(
                    "foreign-factory",
                    "a payload was not given the factory the caller decodes with".into(),
                );
            }
        }
        if fail == Some(0) {
            return Err(probe::fire());
        }
        if value_size == 0 {
            core::probe("payload of no bytes");
            *self = RecPayload { mark: self.mark, ..RecPayload::default() };
        } else {
            let mut l = il2_iltags::io::LimitedReader::new(reader, value_size);
            self.a = l.deserialize_value()?;
            self.b = l.deserialize_ilint()?;
            if fail == Some(1) {
                return Err(probe::fire());
            }
            self.c = l.deserialize_signed_ilint()?;
            self.flag = l.deserialize_value()?;
            self.tag = if self.flag & 1 == 1 {
                Some(factory.deserialize(&mut l)?)
            } else {
                None
            };
            let n = l.available();
            self.rest = l.deserialize_bytes(n)?;
            if self.is_blank() {
                return Err(il2_iltags::tags::ErrorKind::CorruptedData);
            }
        }
        if confined {
            let mut b = [0u8; 2];
            if reader.read().is_ok() || reader.skip(1).is_ok() || reader.read_all(&mut b).is_ok() {
                core::pending(
                    "payload-not-confined",
                    "a payload could read beyond the value declared for it".into(),
                );
            }
        }
        if fail == Some(2) || (fail.is_some() && value_size == 0) {
            return Err(probe::fire());
        }
        Ok(())
    }
}

pub type RecTag = ILGenericPayloadTag<RecPayload>;

// ---------------------------------------------------------------------------------------------
// Model -> real

pub fn creator(k: Kind) -> Box<dyn ILTagCreator> {
    macro_rules! c {
        ($t:ty) => {
            Box::new(ILDefaultWithIdTagCreator::<$t>::default())
        };
    }
    match k {
        Null => c!(ILNullTag),
        Bool => c!(ILBoolTag),
        I8 => c!(ILInt8Tag),
        U8 => c!(ILUInt8Tag),
        I16 => c!(ILInt16Tag),
        U16 => c!(ILUInt16Tag),
        I32 => c!(ILInt32Tag),
        U32 => c!(ILUInt32Tag),
        I64 => c!(ILInt64Tag),
        U64 => c!(ILUInt64Tag),
        ILInt => c!(ILILInt64Tag),
        SILInt => c!(ILSignedILInt64Tag),
        F32 => c!(ILBin32Tag),
        F64 => c!(ILBin64Tag),
        B128 => c!(ILBin128Tag),
        Str => c!(ILStringTag),
        BigDec => c!(ILBigDecTag),
        IntArr => c!(ILILIntArrayTag),
        TagArr => c!(ILTagArrayTag),
        Seq => c!(ILTagSeqTag),
        Range => c!(ILRangeTag),
        Version => c!(ILVersionTag),
        Oid => c!(ILOIDTag),
        Dict => c!(ILDictTag),
        StrDict => c!(ILStrDictTag),
        Raw => c!(ILRawTag),
        Payload => c!(RecTag),
        Bytes => Box::new(il2_iltags::tags::ILDefaultTagCreator::<ILByteArrayTag>::default()),
        BigInt => Box::new(il2_iltags::tags::ILDefaultTagCreator::<ILBigIntTag>::default()),
    }
}

pub fn make_factory(reg: &Reg) -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(reg.strict);
    for (id, k) in reg.customs() {
        f.engine().register(id, creator(k));
    }
    for (id, _) in STD.iter() {
        if !reg.map.contains_key(id) {
            f.engine().deregister(*id);
        }
    }
    f
}

/// An empty tag of the kind (as a creator would make).
pub fn blank(id: u64, k: Kind) -> Box<dyn ILTag> {
    creator(k).create_empty_tag(id)
}

fn be<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut r = [0u8; N];
    r.copy_from_slice(b);
    r
}

/// Builds the real tag, taking one of several construction paths.
pub fn build(t: &MTag) -> Box<dyn ILTag> {
    let style = choose(4);
    build_style(t, style)
}

/// Fixed, straightforward construction path.
pub fn build_plain(t: &MTag) -> Box<dyn ILTag> {
    build_style(t, 0)
}

fn build_child(t: &MTag, style: u64) -> Box<dyn ILTag> {
    if style == 0 {
        build_style(t, 0)
    } else {
        build(t)
    }
}

fn build_style(t: &MTag, style: u64) -> Box<dyn ILTag> {
    let id = t.id;
    let std = std_id(t.kind) == Some(id);
    macro_rules! simple {
        ($ty:ident, $v:expr) => {{
            let v = $v;
            match style {
                0 => Box::new($ty::with_id_value(id, v)) as Box<dyn ILTag>,
                1 if std => Box::new($ty::with_value(v)),
                2 if std => {
                    let mut x = $ty::new();
                    x.set_value(v);
                    Box::new(x)
                }
                _ => {
                    let mut x = $ty::with_id(id);
                    x.set_value(v);
                    Box::new(x)
                }
            }
        }};
    }
    match (&t.val, t.kind) {
        (Val::Null, _) => match style {
            1 if std => Box::new(ILNullTag::new()),
            _ => Box::new(ILNullTag::with_id(id)),
        },
        (Val::Bool(b), _) => simple!(ILBoolTag, *b),
        (Val::Fixed(b), I8) => simple!(ILInt8Tag, b[0] as i8),
        (Val::Fixed(b), U8) => simple!(ILUInt8Tag, b[0]),
        (Val::Fixed(b), I16) => simple!(ILInt16Tag, i16::from_be_bytes(be(b))),
        (Val::Fixed(b), U16) => simple!(ILUInt16Tag, u16::from_be_bytes(be(b))),
        (Val::Fixed(b), I32) => simple!(ILInt32Tag, i32::from_be_bytes(be(b))),
        (Val::Fixed(b), U32) => simple!(ILUInt32Tag, u32::from_be_bytes(be(b))),
        (Val::Fixed(b), I64) => simple!(ILInt64Tag, i64::from_be_bytes(be(b))),
        (Val::Fixed(b), U64) => simple!(ILUInt64Tag, u64::from_be_bytes(be(b))),
        (Val::Fixed(b), F32) => simple!(ILBin32Tag, f32::from_bits(u32::from_be_bytes(be(b)))),
        (Val::Fixed(b), F64) => simple!(ILBin64Tag, f64::from_bits(u64::from_be_bytes(be(b)))),
        (Val::Fixed(b), _) => simple!(ILBin128Tag, &be::<16>(b)),
        (Val::ILInt(v), _) => simple!(ILILInt64Tag, *v),
        (Val::SILInt(v), _) => simple!(ILSignedILInt64Tag, *v),
        (Val::Bytes(b), Bytes) => match style {
            1 => {
                let mut x = ILByteArrayTag::with_capacity(b.len() / 2);
                x.mut_value().extend_from_slice(b);
                Box::new(x)
            }
            2 => {
                let mut x = ILByteArrayTag::new();
                x.mut_value().extend_from_slice(b);
                Box::new(x)
            }
            _ => Box::new(ILByteArrayTag::with_value(b)),
        },
        (Val::Bytes(b), BigInt) => match style {
            1 => {
                let mut x = ILBigIntTag::new();
                x.mut_value().extend_from_slice(b);
                Box::new(x)
            }
            _ => Box::new(ILBigIntTag::with_value(b)),
        },
        (Val::Bytes(b), _) => match style {
            1 => {
                let mut x = ILRawTag::with_capacity(id, 3);
                x.mut_value().extend_from_slice(b);
                Box::new(x)
            }
            2 => {
                let mut x = ILRawTag::with_value(id, b"previous content");
                x.set_value(b);
                Box::new(x)
            }
            _ => Box::new(ILRawTag::with_value(id, b)),
        },
        (Val::Str(s), _) => match style {
            0 => Box::new(ILStringTag::with_id_value(id, s)),
            1 if std => Box::new(ILStringTag::with_value(s)),
            2 => {
                let mut x = ILStringTag::with_id_value(id, "previous content é");
                x.set_value(s);
                Box::new(x)
            }
            _ => {
                let mut x = ILStringTag::with_id(id);
                x.mut_value().push_str(s);
                Box::new(x)
            }
        },
        (Val::BigDec(s, b), _) => match style {
            0 => Box::new(ILBigDecTag::with_id_value(id, *s, b)),
            1 if std => Box::new(ILBigDecTag::with_value(*s, b)),
            _ => {
                let mut x = ILBigDecTag::with_id(id);
                x.set_scale(*s);
                x.mut_value().extend_from_slice(b);
                Box::new(x)
            }
        },
        (Val::Ints(v), IntArr) => match style {
            0 => Box::new(ILILIntArrayTag::with_id_value(id, v)),
            1 if std => Box::new(ILILIntArrayTag::with_value(v)),
            2 => {
                let mut x = ILILIntArrayTag::with_id_value(id, &[7, 7, 7]);
                x.set_value(v);
                Box::new(x)
            }
            _ => {
                let mut x = ILILIntArrayTag::with_id(id);
                x.mut_value().extend_from_slice(v);
                Box::new(x)
            }
        },
        (Val::Ints(v), _) => match style {
            0 => Box::new(ILOIDTag::with_id_value(id, v)),
            1 if std => Box::new(ILOIDTag::with_value(v)),
            2 => {
                let mut x = ILOIDTag::with_id_value(id, &[7, 7, 7]);
                x.set_value(v);
                Box::new(x)
            }
            _ => {
                let mut x = ILOIDTag::with_id(id);
                x.mut_value().extend_from_slice(v);
                Box::new(x)
            }
        },
        (Val::Tags(v), Seq) => {
            let mut x = if std && style == 1 { ILTagSeqTag::new() } else { ILTagSeqTag::with_id(id) };
            for c in v {
                x.mut_value().push(build_child(c, style));
            }
            Box::new(x)
        }
        (Val::Tags(v), _) => {
            let mut x = if std && style == 1 { ILTagArrayTag::new() } else { ILTagArrayTag::with_id(id) };
            for c in v {
                x.mut_value().push(build_child(c, style));
            }
            Box::new(x)
        }
        (Val::Range(s, c), _) => match style {
            0 => Box::new(ILRangeTag::with_id_value(id, *s, *c)),
            1 if std => Box::new(ILRangeTag::with_value(*s, *c)),
            2 => {
                let mut x = ILRangeTag::with_id(id);
                x.set_count(*c);
                x.set_start(*s);
                Box::new(x)
            }
            _ => {
                let mut x = ILRangeTag::with_id(id);
                x.set_value(*s, *c);
                Box::new(x)
            }
        },
        (Val::Version(v), _) => match style {
            0 => Box::new(ILVersionTag::with_id_value(id, v[0], v[1], v[2], v[3])),
            1 if std => Box::new(ILVersionTag::with_value_from_slice(v)),
            2 => {
                let mut x = ILVersionTag::with_id(id);
                x.set_build(v[3]);
                x.set_revision(v[2]);
                x.set_minor(v[1]);
                x.set_major(v[0]);
                Box::new(x)
            }
            _ => Box::new(ILVersionTag::with_id_value_from_slice(id, v)),
        },
        (Val::Dict(m), _) => {
            let mut x = if std && style == 1 { ILDictTag::new() } else { ILDictTag::with_id(id) };
            let mut keys: Vec<&String> = m.keys().collect();
            if style != 0 {
                shuffle(&mut keys);
            }
            for k in keys {
                if style == 2 && chance(1, 4) {
                    x.insert(k, Box::new(ILNullTag::new()));
                }
                if style == 3 {
                    x.mut_value().insert(k.clone(), build_child(&m[k], style));
                } else {
                    x.insert(k, build_child(&m[k], style));
                }
            }
            Box::new(x)
        }
        (Val::StrDict(m), _) => {
            let mut x = if std && style == 1 { ILStrDictTag::new() } else { ILStrDictTag::with_id(id) };
            let mut keys: Vec<&String> = m.keys().collect();
            if style != 0 {
                shuffle(&mut keys);
            }
            for k in keys {
                if style == 2 && chance(1, 4) {
                    x.insert(k, "overwritten");
                }
                if style == 3 {
                    x.mut_value().insert(k.clone(), m[k].clone());
                } else {
                    x.insert(k, &m[k]);
                }
            }
            Box::new(x)
        }
        (Val::Payload(p), _) => {
            let mut x = RecTag::new(id);
            let q = x.mut_payload();
            q.a = p.a;
            q.b = p.b;
            q.c = p.c;
            q.flag = p.flag;
            q.tag = p.tag.as_ref().map(|t| build_child(t, style));
            q.rest = p.rest.clone();
            Box::new(x)
        }
    }
}

pub fn shuffle<T>(v: &mut [T]) {
    if v.len() > 64 {
        // one draw for large collections
        let mut p = Prng::new(choose(1 << 32));
        for i in (1..v.len()).rev() {
            v.swap(i, (p.next() % (i as u64 + 1)) as usize);
        }
        return;
    }
    for i in (1..v.len()).rev() {
        let j = choose(i as u64 + 1) as usize;
        v.swap(i, i - j);
    }
}

// ---------------------------------------------------------------------------------------------
// Real -> model

/// Reads the content of a real tag through its public accessors; the concrete type must be the one
/// the model expects for `kind`.
pub fn extract(t: &dyn ILTag, reg: &Reg) -> Result<MTag, String> {
    let id = t.id();
    let kind = reg.kind(id).ok_or_else(|| format!("tag with unregistered id {}", id))?;
    extract_kind(t, kind, reg)
}

/// Typed access through a generic reference: every way of asking agrees.
fn typed_ref<'a, T: ILTag>(t: &'a dyn ILTag, name: &str) -> Result<&'a T, String> {
    let id = t.id();
    let r = tag_downcast_ref::<T>(t).ok_or_else(|| format!("tag id {} is not a {}", id, name))?;
    let other = id ^ 1;
    let same = |x: Option<&T>| x.map_or(false, |x| std::ptr::eq(x as *const T as *const u8, r as *const T as *const u8));
    if !same(tag_downcast_ref_with_id::<T>(id, t))
        || !same(tag_id_downcast_ref::<T>(id, t).ok())
        || assert_tag_id_and_type::<T>(id, t).is_err()
        || tag_downcast_ref_with_id::<T>(other, t).is_some()
        || !matches!(tag_id_downcast_ref::<T>(other, t), Err(ErrorKind::UnexpectedTagType))
        || tag_downcast_ref::<NotATag>(t).is_some()
        || assert_tag_id_and_type::<NotATag>(id, t).is_ok()
        || t.is_implicity() != (id < 16)
        || t.is_reserved() != (id < 32)
    {
        return Err(format!("the ways of typed access to tag id {} ({}) disagree", id, name));
    }
    Ok(r)
}

type NotATag = ILGenericPayloadTag<Nothing>;
#[derive(Default)]
struct Nothing;
impl ILTagPayload for Nothing {
    fn serialized_size(&self) -> usize {
        0
    }
    fn serialize(&self, _: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        Ok(())
    }
    fn deserialize(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> il2_iltags::tags::Result<()> {
        Ok(())
    }
}

pub fn extract_kind(t: &dyn ILTag, kind: Kind, reg: &Reg) -> Result<MTag, String> {
    let id = t.id();
    macro_rules! d {
        ($ty:ty) => {
            typed_ref::<$ty>(t, stringify!($ty))?
        };
    }
    let val = match kind {
        Null => {
            d!(ILNullTag);
            Val::Null
        }
        Bool => Val::Bool(d!(ILBoolTag).value()),
        I8 => Val::Fixed(d!(ILInt8Tag).value().to_be_bytes().to_vec()),
        U8 => Val::Fixed(d!(ILUInt8Tag).value().to_be_bytes().to_vec()),
        I16 => Val::Fixed(d!(ILInt16Tag).value().to_be_bytes().to_vec()),
        U16 => Val::Fixed(d!(ILUInt16Tag).value().to_be_bytes().to_vec()),
        I32 => Val::Fixed(d!(ILInt32Tag).value().to_be_bytes().to_vec()),
        U32 => Val::Fixed(d!(ILUInt32Tag).value().to_be_bytes().to_vec()),
        I64 => Val::Fixed(d!(ILInt64Tag).value().to_be_bytes().to_vec()),
        U64 => Val::Fixed(d!(ILUInt64Tag).value().to_be_bytes().to_vec()),
        F32 => Val::Fixed(d!(ILBin32Tag).value().to_bits().to_be_bytes().to_vec()),
        F64 => Val::Fixed(d!(ILBin64Tag).value().to_bits().to_be_bytes().to_vec()),
        B128 => Val::Fixed(d!(ILBin128Tag).value().to_vec()),
        ILInt => Val::ILInt(d!(ILILInt64Tag).value()),
        SILInt => Val::SILInt(d!(ILSignedILInt64Tag).value()),
        Bytes => Val::Bytes(d!(ILByteArrayTag).value().clone()),
        BigInt => Val::Bytes(d!(ILBigIntTag).value().clone()),
        Raw => Val::Bytes(d!(ILRawTag).value().clone()),
        Str => Val::Str(d!(ILStringTag).value().to_string()),
        BigDec => {
            let x = d!(ILBigDecTag);
            Val::BigDec(x.scale(), x.value().clone())
        }
        IntArr => Val::Ints(d!(ILILIntArrayTag).value().clone()),
        Oid => Val::Ints(d!(ILOIDTag).value().clone()),
        Seq => Val::Tags(extract_all(d!(ILTagSeqTag).value(), reg)?),
        TagArr => Val::Tags(extract_all(d!(ILTagArrayTag).value(), reg)?),
        Range => {
            let x = d!(ILRangeTag);
            Val::Range(x.start(), x.count())
        }
        Version => {
            let x = d!(ILVersionTag);
            let v = [x.major(), x.minor(), x.revision(), x.build()];
            if v != *x.value() {
                return Err("version accessors disagree".into());
            }
            Val::Version(v)
        }
        Dict => {
            let x = d!(ILDictTag);
            let mut m = BTreeMap::new();
            if x.len() != x.value().len() || x.is_empty() != (x.len() == 0) {
                return Err("dictionary len() disagrees with its content".into());
            }
            if x.get("\u{1}no such key").is_some() {
                return Err("dictionary get() finds a key it does not hold".into());
            }
            for (k, v) in x.value() {
                let g = x.get(k).ok_or("dictionary get() misses a key it holds")?;
                if !std::ptr::eq(g as *const dyn ILTag as *const u8, v.as_ref() as *const dyn ILTag as *const u8) {
                    return Err("dictionary get() returns another entry".into());
                }
                m.insert(k.clone(), extract(v.as_ref(), reg)?);
            }
            Val::Dict(m)
        }
        StrDict => {
            let x = d!(ILStrDictTag);
            let mut m = BTreeMap::new();
            if x.len() != x.value().len() || x.is_empty() != (x.len() == 0) {
                return Err("dictionary len() disagrees with its content".into());
            }
            if x.get("\u{1}no such key").is_some() {
                return Err("dictionary get() finds a key it does not hold".into());
            }
            for (k, v) in x.value() {
                if x.get(k) != Some(v.as_str()) {
                    return Err("dictionary get() disagrees with its content".into());
                }
                m.insert(k.clone(), v.clone());
            }
            Val::StrDict(m)
        }
        Payload => {
            let x = d!(RecTag).payload();
            Val::Payload(PVal {
                a: x.a,
                b: x.b,
                c: x.c,
                flag: x.flag,
                tag: match &x.tag {
                    Some(t) => Some(Box::new(extract(t.as_ref(), reg)?)),
                    None => None,
                },
                rest: x.rest.clone(),
            })
        }
    };
    Ok(MTag { id, kind, val })
}

fn extract_all(v: &[Box<dyn ILTag>], reg: &Reg) -> Result<Vec<MTag>, String> {
    v.iter().map(|t| extract(t.as_ref(), reg)).collect()
}

// ---------------------------------------------------------------------------------------------
// Generator

pub const ID_POOL: [u64; 24] = [
    32, 33, 26, 27, 28, 29, 100, 246, 247, 248, 249, 502, 503, 504, 505, 1000, 65782, 65783, 65784, 65785, 1 << 32,
    1 << 63, u64::MAX - 1, u64::MAX,
];

pub const LEN_POOL: [usize; 30] = [
    246, 247, 248, 249, 250, 253, 254, 255, 256, 257, 127, 128, 129, 502, 503, 504, 505, 506, 510, 511, 512, 513, 1023, 1024,
    1025, 2048, 4095, 4096, 4097, 8192,
];
pub const BIG_LEN_POOL: [usize; 22] = [
    1025, 1500, 2000, 3000, 4096, 4097, 5000, 8191, 8193, 10000, 16384, 20000, 32768, 65535, 65536, 65537, 65782, 65783, 65784,
    65785, 70000, 131072,
];
const COUNT_POOL: [u64; 16] = [
    256, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1026, 1500, 2048, 2049, 4097, 20000,
];
const HUGE_POOL: [u64; 8] = [65535, 65536, 65537, 65783, 65784, 70000, 32768, 100000];

pub fn gen_reg() -> Reg {
    let mut r = Reg::std(chance(1, 3));
    let n = choose(4);
    for _ in 0..n {
        let id = if chance(1, 4) { gen_u64().max(16) } else { pick(&ID_POOL) };
        if std_kind(id).is_some() || id <= 15 {
            continue;
        }
        r.map.insert(id, pick(&WITH_ID));
    }
    r
}

pub fn gen_u64() -> u64 {
    match weighted(&[5, 3, 4, 2, 2]) {
        0 => choose(256),
        1 => 240 + choose(32),
        2 => {
            // around the ILInt size boundaries
            let k = choose(9);
            let b = if k == 0 {
                0xF8u64
            } else if k == 8 {
                u64::MAX
            } else {
                ((1u64 << (8 * k)) - 1).wrapping_add(0xF8)
            };
            b.wrapping_add(choose(5)).wrapping_sub(2)
        }
        3 => {
            let k = choose(64);
            (1u64 << k).wrapping_add(choose(3)).wrapping_sub(1)
        }
        _ => {
            let bits = choose(64) + 1;
            range(0, u64::MAX) >> (64 - bits)
        }
    }
}

pub fn gen_i64() -> i64 {
    if chance(1, 4) {
        pick(&[0, -1, 1, i64::MIN, i64::MAX, i64::MIN + 1, -124, -125, 124, 123])
    } else {
        let v = gen_u64();
        if chance(1, 2) {
            unzigzag(v)
        } else {
            v as i64
        }
    }
}

pub fn gen_bytes(n: usize) -> Vec<u8> {
    if n == 0 {
        return Vec::new();
    }
    let s = choose(1 << 16);
    if s == 0 {
        return vec![0; n];
    }
    let mut p = Prng::new(s);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&p.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

/// A string of exactly n bytes.
pub fn gen_string(n: usize) -> String {
    let mode = choose(4);
    let s = choose(1 << 16);
    let mut p = Prng::new(s);
    let mut r = String::with_capacity(n + 4);
    while r.len() < n {
        let left = n - r.len();
        let x = p.next();
        let c = match mode {
            0 => (b'a' + (x % 26) as u8) as char,
            1 => (x % 128) as u8 as char,
            2 => pick_char(x),
            _ => {
                if x % 3 == 0 {
                    pick_char(x / 3)
                } else {
                    (b' ' + (x % 90) as u8) as char
                }
            }
        };
        if c.len_utf8() <= left {
            r.push(c);
        } else {
            r.push('z');
        }
    }
    r
}

fn pick_char(x: u64) -> char {
    const C: [char; 24] = [
        'é',
        'ß',
        '\u{7ff}',
        '\u{800}',
        '漢',
        '\u{d7ff}',
        '\u{e000}',
        '\u{fffd}',
        '\u{ffff}',
        '\u{10000}',
        '😀',
        '\u{10ffff}',
        '\u{80}',
        '\0',
        '\u{feff}',
        '\u{301}',
        '\u{ad}',
        'İ',
        'ẞ',
        '\r',
        '\n',
        '\t',
        ' ',
        '\u{85}',
    ];
    C[(x % 24) as usize]
}

pub struct Gen<'a> {
    pub reg: &'a Reg,
    /// bytes this workload may still spend
    pub budget: i64,
    pub max_depth: usize,
    /// unknown explicit ids decoded as raw tags
    pub raws: bool,
    pub big: bool,
    pub huge: bool,
}

impl<'a> Gen<'a> {
    pub fn new(reg: &'a Reg, budget: i64, max_depth: usize) -> Self {
        Gen {
            reg,
            budget,
            max_depth,
            raws: !reg.strict,
            big: false,
            huge: false,
        }
    }

    /// A generator whose size is mostly one of `small`, now and then far beyond.
    pub fn sized(reg: &'a Reg, small: &[i64], max_depth: usize) -> Self {
        let mut g = Gen::new(reg, 0, max_depth);
        g.scale(small);
        g
    }

    pub fn scale(&mut self, small: &[i64]) {
        self.big = false;
        self.huge = false;
        self.budget = match weighted(&[1600, 80, 10, 1]) {
            0 => pick(small),
            1 => {
                self.big = true;
                range(2_000, 12_000) as i64
            }
            2 => {
                self.big = true;
                range(66_000, if core::thorough() { 200_000 } else { 140_000 }) as i64
            }
            _ => {
                self.big = true;
                self.huge = true;
                range(200_000, 900_000) as i64
            }
        };
    }

    pub fn len(&mut self) -> usize {
        let w = if self.big { [4, 2, 4, 4] } else { [10, 6, 3, 1] };
        let n = match weighted(&w) {
            0 => choose(9) as usize,
            1 => choose(40) as usize,
            2 => pick(&LEN_POOL),
            _ => {
                if self.big {
                    pick(&BIG_LEN_POOL)
                } else {
                    choose(600) as usize
                }
            }
        };
        let n = n.min(self.budget.max(0) as usize);
        self.budget -= n as i64 + 2;
        n
    }

    /// Number of elements of a collection whose elements take about `each` bytes.
    fn count(&mut self, each: i64) -> usize {
        let w = if self.big { [6, 4, 2, 4] } else { [10, 4, 1, 1] };
        let n = match weighted(&w) {
            0 => choose(5),
            1 => choose(20),
            2 => pick(&[245u64, 246, 247, 248, 249, 250, 254, 255, 256, 257, 300]),
            _ if self.huge => pick(&HUGE_POOL),
            _ if self.big => pick(&COUNT_POOL),
            _ => choose(120),
        };
        (n as i64).min(self.budget.max(0) / each.max(1)) as usize
    }

    pub fn key(&mut self, i: usize) -> String {
        self.budget -= 8;
        match choose(8) {
            0 => gen_string(choose(4) as usize),
            1 => format!("key{}", i),
            2 => format!("key{:03}", i),
            3 => {
                let n = choose(12) as usize;
                gen_string(n)
            }
            4 => format!("Key{}", choose(30)),
            5 => {
                let n = self.len().min(600);
                gen_string(n)
            }
            6 => "k".repeat(choose(5) as usize),
            _ => format!("{}{}", pick(&["a", "A", "é", "z", "Z", "_", "\u{10000}", "\u{ffff}", "", " ", "\u{feff}", "e\u{301}"]), choose(20)),
        }
    }

    /// A complete random tag.
    pub fn tag(&mut self) -> MTag {
        let d = self.max_depth;
        let mut t = self.tag_depth(d);
        if chance(1, 50) {
            let w = if self.big { [4, 2, 2] } else { [12, 4, 0] };
            let to = match weighted(&w) {
                0 => pick(&[247usize, 248, 249, 255, 256, 257, 503, 504, 505, 511, 512, 513]),
                1 => pick(&[1023usize, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193]),
                _ => pick(&[16384usize, 32768, 65535, 65536, 65537, 65783, 65784, 65785, 131072]),
            };
            if fit(self.reg, &mut t, to, chance(1, 3)) {
                self.budget -= to as i64;
            }
        }
        t
    }

    fn pick_kind(&mut self, depth: usize) -> (u64, Kind) {
        let deep = depth > 0 && self.budget > 0;
        match weighted(&[6, 6, if deep { 8 } else { 0 }, 3]) {
            0 => pick(&STD[0..15]),
            1 => pick(&[
                (16, Bytes),
                (17, Str),
                (18, BigInt),
                (19, BigDec),
                (20, IntArr),
                (23, Range),
                (24, Version),
                (25, Oid),
                (31, StrDict),
            ]),
            2 => pick(&[(21, TagArr), (22, Seq), (30, Dict), (22, Seq)]),
            _ => {
                let c: Vec<(u64, Kind)> = self.reg.customs();
                if !c.is_empty() && (!self.raws || chance(2, 3)) {
                    pick(&c)
                } else if self.raws {
                    let mut id = if chance(1, 3) { gen_u64().max(16) } else { pick(&ID_POOL) };
                    if self.reg.map.contains_key(&id) {
                        id = 4_000_000_007;
                        if self.reg.map.contains_key(&id) {
                            return (17, Str);
                        }
                    }
                    (id, Raw)
                } else {
                    (17, Str)
                }
            }
        }
    }

    pub fn tag_depth(&mut self, depth: usize) -> MTag {
        let (id, kind) = self.pick_kind(depth);
        let ok = match self.reg.kind(id) {
            Some(k) => k == kind,
            None => false,
        };
        if !ok {
            // the standard id is registered otherwise here
            return MTag {
                id: 0,
                kind: Null,
                val: Val::Null,
            };
        }
        self.of(id, kind, depth)
    }

    pub fn of(&mut self, id: u64, kind: Kind, depth: usize) -> MTag {
        self.budget -= 4;
        let val = match kind {
            Null => Val::Null,
            Bool => Val::Bool(chance(1, 2)),
            I8 | U8 | I16 | U16 | I32 | U32 | I64 | U64 | F32 | F64 | B128 => {
                let n = fixed_len(kind).unwrap();
                let b = match choose(6) {
                    0 => vec![0; n],
                    1 => vec![0xFF; n],
                    2 => {
                        let mut v = vec![0; n];
                        v[0] = 0x80;
                        v
                    }
                    3 => {
                        let mut v = vec![0xFF; n];
                        v[0] = 0x7F;
                        v
                    }
                    _ => gen_bytes(n),
                };
                Val::Fixed(b)
            }
            ILInt => Val::ILInt(gen_u64()),
            SILInt => Val::SILInt(gen_i64()),
            Bytes | BigInt | Raw => {
                let n = self.len();
                Val::Bytes(gen_bytes(n))
            }
            Str => {
                let n = self.len();
                Val::Str(gen_string(n))
            }
            BigDec => {
                let n = self.len();
                Val::BigDec(gen_i64() as i32, gen_bytes(n))
            }
            IntArr | Oid => {
                let n = self.count(2);
                let mut v = Vec::with_capacity(n);
                if n > 40 {
                    let mut p = Prng::new(choose(1 << 16));
                    for _ in 0..n {
                        let x = p.next();
                        v.push((x >> 8) >> (x & 63).min(55));
                    }
                } else {
                    for _ in 0..n {
                        v.push(gen_u64());
                    }
                }
                self.budget -= 3 * n as i64;
                Val::Ints(v)
            }
            TagArr | Seq => {
                let n = self.count(3);
                let mut v = Vec::with_capacity(n);
                if n > 40 {
                    // many small elements: two prototypes repeated
                    let a = self.tag_depth(0);
                    let b = MTag {
                        id: 3,
                        kind: U8,
                        val: Val::Fixed(vec![choose(256) as u8]),
                    };
                    let len = enc(&a).len() as i64;
                    let plain = self.reg.kind(3) == Some(U8);
                    for i in 0..n {
                        let use_a = (i % 7 == 0 || !plain) && self.budget > len;
                        if !use_a && !plain {
                            break;
                        }
                        self.budget -= if use_a { len } else { 2 };
                        v.push(if use_a { a.clone() } else { b.clone() });
                    }
                } else {
                    for _ in 0..n {
                        if self.budget <= 0 {
                            break;
                        }
                        v.push(self.tag_depth(depth.saturating_sub(1)));
                    }
                }
                Val::Tags(v)
            }
            Range => Val::Range(gen_u64(), gen_u64() as u16),
            Version => Val::Version([gen_i64() as i32, gen_i64() as i32, gen_i64() as i32, gen_i64() as i32]),
            Dict => {
                let n = self.count(10);
                let mut m = BTreeMap::new();
                if n > 40 {
                    let a = self.tag_depth(0);
                    let len = enc(&a).len() as i64;
                    let plain = self.reg.kind(0) == Some(Null);
                    for i in 0..n {
                        let use_a = (i % 7 == 0 || !plain) && self.budget > len;
                        if !use_a && !plain {
                            break;
                        }
                        self.budget -= if use_a { len } else { 8 };
                        let small = MTag {
                            id: 0,
                            kind: Null,
                            val: Val::Null,
                        };
                        m.insert(format!("k{}", i), if use_a { a.clone() } else { small });
                    }
                } else {
                    for i in 0..n {
                        if self.budget <= 0 {
                            break;
                        }
                        let k = self.key(i);
                        let t = self.tag_depth(depth.saturating_sub(1));
                        m.insert(k, t);
                    }
                }
                Val::Dict(m)
            }
            StrDict => {
                let n = self.count(12);
                let mut m = BTreeMap::new();
                for i in 0..n {
                    if self.budget <= 0 {
                        break;
                    }
                    if n > 40 {
                        self.budget -= 10;
                        m.insert(format!("k{}", i), format!("v{}", i % 10));
                    } else {
                        let k = self.key(i);
                        let l = self.len().min(700);
                        m.insert(k, gen_string(l));
                    }
                }
                Val::StrDict(m)
            }
            Payload if chance(1, 16) => Val::Payload(PVal::blank()),
            Payload => {
                let with_tag = depth > 0 && chance(1, 2);
                let tag = if with_tag { Some(Box::new(self.tag_depth(depth - 1))) } else { None };
                let flag = (choose(128) as u8) << 1 | with_tag as u8;
                let n = self.len();
                Val::Payload(PVal {
                    a: gen_u64() as u32,
                    b: gen_u64(),
                    c: gen_i64(),
                    flag,
                    tag,
                    rest: gen_bytes(n),
                })
            }
        };
        MTag { id, kind, val }
    }

    /// A chain of containers of the given depth around a leaf.
    pub fn tower(&mut self, depth: usize) -> MTag {
        let mut t = self.tag_depth(0);
        for i in 0..depth {
            let k = choose(4);
            t = match k {
                0 => MTag {
                    id: 22,
                    kind: Seq,
                    val: Val::Tags(vec![t]),
                },
                1 => MTag {
                    id: 21,
                    kind: TagArr,
                    val: Val::Tags(vec![t]),
                },
                2 => {
                    let mut m = BTreeMap::new();
                    m.insert(format!("{}", i % 10), t);
                    MTag {
                        id: 30,
                        kind: Dict,
                        val: Val::Dict(m),
                    }
                }
                _ => MTag {
                    id: 22,
                    kind: Seq,
                    val: Val::Tags(vec![
                        t,
                        MTag {
                            id: 0,
                            kind: Null,
                            val: Val::Null,
                        },
                    ]),
                },
            };
        }
        t
    }
}

/// Grows the tag until its value (or all of it) takes exactly `to` bytes, where its kind allows that.
pub fn fit(reg: &Reg, t: &mut MTag, to: usize, whole: bool) -> bool {
    let pad = || MTag { id: 16, kind: Bytes, val: Val::Bytes(Vec::new()) };
    let is_pad = |t: &MTag| t.id == 16 && matches!(t.val, Val::Bytes(_));
    let nest = reg.kind(16) == Some(Bytes);
    let size = |t: &MTag| if whole { enc(t).len() } else { enc_value(t).len() };
    let resize = |v: &mut Vec<u8>, d: isize| {
        let n = v.len() as isize + d;
        v.resize(n.max(0) as usize, 0xA5);
    };
    if size(t) > to {
        return false;
    }
    for _ in 0..8 {
        let d = to as isize - size(t) as isize;
        if d == 0 {
            core::probe("tag fitted to an exact size");
            return true;
        }
        match &mut t.val {
            Val::Bytes(v) | Val::BigDec(_, v) => resize(v, d),
            Val::Payload(p) => resize(&mut p.rest, d),
            Val::Str(s) => {
                if d > 0 {
                    s.push_str(&"x".repeat(d as usize));
                } else {
                    for _ in 0..-d {
                        if s.pop() != Some('x') {
                            return false;
                        }
                    }
                }
            }
            Val::Ints(v) if t.kind == IntArr || t.kind == Oid => {
                let n = v.len() as isize + d;
                v.resize(n.max(0) as usize, 7);
            }
            Val::Tags(v) if nest => {
                if !v.last().map(|l| is_pad(l)).unwrap_or(false) {
                    v.push(pad());
                    continue;
                }
                if let Some(MTag { val: Val::Bytes(b), .. }) = v.last_mut() {
                    resize(b, d);
                }
            }
            Val::Dict(m) if nest => {
                let p = m.entry("~pad".to_string()).or_insert_with(pad);
                match &mut p.val {
                    Val::Bytes(b) => resize(b, d),
                    _ => return false,
                }
            }
            Val::StrDict(m) => {
                let s = m.entry("~pad".to_string()).or_insert_with(String::new);
                let n = (s.len() as isize + d).max(0) as usize;
                *s = "y".repeat(n);
            }
            _ => return false,
        }
    }
    false
}

/// A nesting depth: mostly up to `usual`, now and then far deeper.
pub fn tower_depth(usual: u64) -> usize {
    1 + match weighted(&[20, 2]) {
        0 => choose(usual),
        _ => choose(if core::thorough() { 400 } else { 270 }),
    } as usize
}

/// Standard workload: a few tags, mostly small, sometimes large or deep.
pub fn gen_tags(reg: &Reg, max: u64) -> Vec<MTag> {
    let n = 1 + choose(max);
    let mut v = Vec::new();
    let mut g = Gen::new(reg, 0, 4);
    for _ in 0..n {
        match weighted(&[9600, 4800, 1200, 600, 8]) {
            0 => {
                g.budget = 120;
                g.max_depth = 3;
                v.push(g.tag());
            }
            1 => {
                g.budget = 1500;
                g.max_depth = 4;
                v.push(g.tag());
            }
            2 => {
                g.budget = 60;
                let d = tower_depth(if core::thorough() { 40 } else { 20 });
                let std = (21..=22).all(|i| reg.kind(i) == std_kind(i)) && reg.kind(30) == Some(Dict) && reg.kind(0) == Some(Null);
                v.push(if std { g.tower(d) } else { g.tag() });
            }
            3 => {
                g.budget = if core::thorough() { 150_000 } else { 80_000 };
                g.big = true;
                g.max_depth = 3;
                v.push(g.tag());
                g.big = false;
            }
            _ => {
                g.budget = range(200_000, 900_000) as _;
                g.big = true;
                g.huge = true;
                g.max_depth = 3;
                v.push(g.tag());
                g.big = false;
                g.huge = false;
            }
        }
    }
    v
}

/// Values around sizes at which buffers are commonly split.
pub const GIANT_POOL: [u64; 6] = [1 << 20, 1 << 20, 1 << 21, 1 << 22, 10_000_000, 1 << 24];

/// Like gen_tags, but now and then with one value of megabytes.
pub fn gen_stream(reg: &Reg, max: u64) -> Vec<MTag> {
    let mut v = gen_tags(reg, max);
    if chance(1, 2500) {
        let n = (pick(&GIANT_POOL) + if chance(1, 2) { choose(9) } else { 4 } - 4) as usize;
        let raw = MTag { id: 4_000_000_007, kind: Raw, val: Val::Bytes(gen_bytes(n)) };
        let t = match choose(6) {
            0 if reg.kind(16) == Some(Bytes) => MTag { id: 16, kind: Bytes, val: raw.val },
            1 if reg.kind(17) == Some(Str) => MTag { id: 17, kind: Str, val: Val::Str(gen_string(n)) },
            2 if reg.kind(19) == Some(BigDec) => MTag { id: 19, kind: BigDec, val: Val::BigDec(-2, gen_bytes(n)) },
            3 if reg.kind(22) == Some(Seq) && reg.kind(16) == Some(Bytes) => MTag {
                id: 22,
                kind: Seq,
                val: Val::Tags(vec![MTag { id: 16, kind: Bytes, val: Val::Bytes(gen_bytes(n / 2)) }, MTag { id: 16, kind: Bytes, val: Val::Bytes(gen_bytes(n / 2)) }]),
            },
            4 if reg.kind(31) == Some(StrDict) => {
                let mut m = BTreeMap::new();
                m.insert("k".to_string(), gen_string(n / 2));
                m.insert(gen_string(n / 2), "v".to_string());
                MTag { id: 31, kind: StrDict, val: Val::StrDict(m) }
            }
            _ if reg.kind(raw.id) == Some(Raw) => raw,
            _ if reg.kind(18) == Some(BigInt) => MTag { id: 18, kind: BigInt, val: raw.val },
            _ => return v,
        };
        core::probe("value of megabytes");
        let at = choose(v.len() as u64 + 1) as usize;
        v.insert(at, t);
    }
    v
}

// ---------------------------------------------------------------------------------------------

pub fn is_io(e: &ErrorKind) -> bool {
    matches!(e, ErrorKind::IOError(_))
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    let show = |v: &[u8]| {
        v[n.min(v.len())..(n + 12).min(v.len())]
            .iter()
            .map(|b| format!("{:02x}", b))
            .collect::<Vec<_>>()
            .join("")
    };
    format!(
        "lengths {} and {}, first difference at byte {}: {} / {}",
        a.len(),
        b.len(),
        n,
        show(a),
        show(b)
    )
}

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(64).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 64 {
        format!("{}..({} bytes)", s, b.len())
    } else {
        s
    }
}
