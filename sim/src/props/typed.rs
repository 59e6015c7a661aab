//! Typed reads and writes through every entry point the library offers for them.
use crate::core::{choose, pick};
use crate::io_sim::{DynR, DynW};
use crate::model::*;
use il2_iltags::ilint;
use il2_iltags::io::data::*;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization as ser;
use il2_iltags::tags::serialization::*;

#[derive(Clone, Debug, PartialEq)]
pub enum RT {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
    ILInt,
    SILInt,
    Str(usize),
    Bytes(usize),
    BytesVec(usize),
    BytesSlice(usize),
}
use RT::*;

pub const FLAVOURS: u64 = 6;

pub fn draw_read(max: usize) -> RT {
    let t = pick(&[
        U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, ILInt, ILInt, SILInt, Str(0), Bytes(0), BytesVec(0), BytesSlice(0),
    ]);
    match t {
        Str(_) => Str(choose(max as u64 + 1) as usize),
        Bytes(_) => Bytes(choose(max as u64 + 1) as usize),
        BytesVec(_) => BytesVec(choose(max as u64 + 1) as usize),
        BytesSlice(_) => BytesSlice(choose(max as u64 + 1) as usize),
        t => t,
    }
}

/// What the operation does on the data that starts at the position: value (normalised to bytes) and
/// bytes taken; Err(true) if the data is there but is no such value, Err(false) if data is missing.
pub fn expect(op: &RT, d: &[u8]) -> Result<(Vec<u8>, usize), bool> {
    let n = match op {
        U8 | I8 => 1,
        U16 | I16 => 2,
        U32 | I32 | F32 => 4,
        U64 | I64 | F64 => 8,
        Str(n) | Bytes(n) | BytesVec(n) | BytesSlice(n) => *n,
        ILInt | SILInt => {
            if d.is_empty() {
                return Err(false);
            }
            if d[0] < 0xF8 {
                let v = d[0] as u64;
                let v = if *op == ILInt { v } else { unzigzag(v) as u64 };
                return Ok((v.to_be_bytes().to_vec(), 1));
            }
            let n = (d[0] - 0xF8) as usize + 1;
            if d.len() < 1 + n {
                return Err(false);
            }
            let mut v: u64 = 0;
            for x in &d[1..=n] {
                v = (v << 8) | *x as u64;
            }
            let v = match v.checked_add(0xF8) {
                Some(v) => v,
                None => return Err(true),
            };
            let v = if *op == ILInt { v } else { unzigzag(v) as u64 };
            return Ok((v.to_be_bytes().to_vec(), 1 + n));
        }
    };
    if d.len() < n {
        return Err(false);
    }
    if let Str(_) = op {
        if std::str::from_utf8(&d[..n]).is_err() {
            return Err(true);
        }
    }
    Ok((d[..n].to_vec(), n))
}

/// Largest number of bytes the operation may take.
pub fn span(op: &RT) -> usize {
    match op {
        U8 | I8 => 1,
        U16 | I16 => 2,
        U32 | I32 | F32 => 4,
        U64 | I64 | F64 => 8,
        Str(n) | Bytes(n) | BytesVec(n) | BytesSlice(n) => *n,
        ILInt | SILInt => 9,
    }
}

/// The operation is one bulk request (so a refusal leaves memory readers unmoved).
pub fn single(op: &RT) -> bool {
    !matches!(op, ILInt | SILInt)
}

fn er<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

pub fn read(r: &mut dyn Reader, op: &RT, fl: u64) -> Result<Vec<u8>, String> {
    macro_rules! fixed {
        ($t:ty, $f:ident) => {{
            let v: $t = match fl {
                0 => er(ValueReader::<$t>::read_value(r))?,
                1 => er(ValueDeserializer::<$t>::deserialize_value(r))?,
                2 => er(ValueReader::<$t>::read_value(&mut DynR(r)))?,
                3 => er(ValueDeserializer::<$t>::deserialize_value(&mut DynR(r)))?,
                4 => {
                    let mut d = DynR(r);
                    let o: &mut dyn ValueReader<$t> = &mut d;
                    er(ValueDeserializer::<$t>::deserialize_value(o))?
                }
                _ => er($f(r))?,
            };
            Ok(v.to_be_bytes().to_vec())
        }};
    }
    match op {
        U8 => fixed!(u8, read_u8),
        I8 => fixed!(i8, read_i8),
        U16 => fixed!(u16, read_u16),
        I16 => fixed!(i16, read_i16),
        U32 => fixed!(u32, read_u32),
        I32 => fixed!(i32, read_i32),
        U64 => fixed!(u64, read_u64),
        I64 => fixed!(i64, read_i64),
        F32 => fixed!(f32, read_f32),
        F64 => fixed!(f64, read_f64),
        ILInt => {
            let v = match fl {
                0 => er(ILIntReader::read_ilint(r))?,
                1 => er(ILIntDeserializer::deserialize_ilint(r))?,
                2 => er(ILIntReader::read_ilint(&mut DynR(r)))?,
                3 => er(ILIntDeserializer::deserialize_ilint(&mut DynR(r)))?,
                4 => {
                    let mut d = DynR(r);
                    let o: &mut dyn ILIntReader = &mut d;
                    er(ILIntDeserializer::deserialize_ilint(o))?
                }
                _ => match choose(3) {
                    0 => er(ilint::decode(r))?,
                    1 => er(read_ilint(r))?,
                    _ => er(ser::deserialize_ilint(r))?,
                },
            };
            Ok(v.to_be_bytes().to_vec())
        }
        SILInt => {
            let v = match fl {
                0 => er(SignedILIntReader::read_signed_ilint(r))?,
                1 => er(SignedILIntDeserializer::deserialize_signed_ilint(r))?,
                2 => er(SignedILIntReader::read_signed_ilint(&mut DynR(r)))?,
                3 => er(SignedILIntDeserializer::deserialize_signed_ilint(&mut DynR(r)))?,
                4 => {
                    let mut d = DynR(r);
                    let o: &mut dyn SignedILIntReader = &mut d;
                    er(SignedILIntDeserializer::deserialize_signed_ilint(o))?
                }
                _ => match choose(2) {
                    0 => er(ilint::signed_decode(r))?,
                    _ => er(read_signed_ilint(r))?,
                },
            };
            Ok(v.to_be_bytes().to_vec())
        }
        Str(n) => {
            let v = match fl {
                0 => er(StringValueReader::read_string(r, *n))?,
                1 => er(StringDeserializer::deserialize_string(r, *n))?,
                2 => er(StringValueReader::read_string(&mut DynR(r), *n))?,
                3 => er(StringDeserializer::deserialize_string(&mut DynR(r), *n))?,
                4 => {
                    let mut d = DynR(r);
                    let o: &mut dyn StringValueReader = &mut d;
                    er(StringDeserializer::deserialize_string(o, *n))?
                }
                _ => er(read_string(r, *n))?,
            };
            Ok(v.into_bytes())
        }
        Bytes(n) => match fl {
            0 | 1 => er(ByteArrayDeserializer::deserialize_bytes(r, *n)),
            2 | 3 => er(ByteArrayDeserializer::deserialize_bytes(&mut DynR(r), *n)),
            _ => er(ser::deserialize_bytes(*n, r)),
        },
        BytesVec(n) => {
            let mut v: Vec<u8> = vec![0xCC; choose(600) as usize];
            match fl {
                0 | 1 => er(ByteArrayDeserializer::deserialize_bytes_into_vec(r, *n, &mut v))?,
                2 | 3 => er(ByteArrayDeserializer::deserialize_bytes_into_vec(&mut DynR(r), *n, &mut v))?,
                _ => er(ser::deserialize_bytes_into_vec(*n, r, &mut v))?,
            }
            Ok(v)
        }
        BytesSlice(n) => {
            let mut v: Vec<u8> = vec![0xCC; *n];
            match fl {
                0 | 1 | 4 => er(ByteArrayDeserializer::deserialize_bytes_into_slice(r, &mut v))?,
                _ => er(ByteArrayDeserializer::deserialize_bytes_into_slice(&mut DynR(r), &mut v))?,
            }
            Ok(v)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum WT {
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F32(u32),
    F64(u64),
    ILInt(u64),
    SILInt(i64),
    Str(String),
    Bytes(Vec<u8>),
}

pub fn draw_write(max: usize) -> WT {
    match choose(14) {
        0 => WT::U8(gen_u64() as u8),
        1 => WT::I8(gen_i64() as i8),
        2 => WT::U16(gen_u64() as u16),
        3 => WT::I16(gen_i64() as i16),
        4 => WT::U32(gen_u64() as u32),
        5 => WT::I32(gen_i64() as i32),
        6 => WT::U64(gen_u64()),
        7 => WT::I64(gen_i64()),
        8 => WT::F32(gen_u64() as u32),
        9 => WT::F64(gen_u64()),
        10 => WT::ILInt(gen_u64()),
        11 => WT::SILInt(gen_i64()),
        12 => WT::Str(gen_string(choose(max as u64 + 1) as usize)),
        _ => WT::Bytes(gen_bytes(choose(max as u64 + 1) as usize)),
    }
}

pub fn bytes_of(v: &WT) -> Vec<u8> {
    match v {
        WT::U8(x) => x.to_be_bytes().to_vec(),
        WT::I8(x) => x.to_be_bytes().to_vec(),
        WT::U16(x) => x.to_be_bytes().to_vec(),
        WT::I16(x) => x.to_be_bytes().to_vec(),
        WT::U32(x) => x.to_be_bytes().to_vec(),
        WT::I32(x) => x.to_be_bytes().to_vec(),
        WT::U64(x) => x.to_be_bytes().to_vec(),
        WT::I64(x) => x.to_be_bytes().to_vec(),
        WT::F32(x) => x.to_be_bytes().to_vec(),
        WT::F64(x) => x.to_be_bytes().to_vec(),
        WT::ILInt(x) => {
            let mut v = Vec::new();
            ilint_put(&mut v, *x);
            v
        }
        WT::SILInt(x) => {
            let mut v = Vec::new();
            ilint_put(&mut v, zigzag(*x));
            v
        }
        WT::Str(s) => s.as_bytes().to_vec(),
        WT::Bytes(b) => b.clone(),
    }
}

#[allow(deprecated)]
pub fn write(w: &mut dyn Writer, v: &WT, fl: u64) -> Result<(), String> {
    macro_rules! fixed {
        ($t:ty, $f:ident, $v:expr) => {{
            let v: $t = $v;
            match fl {
                0 => er(ValueWriter::<$t>::write_value(w, v)),
                1 => er(ValueSerializer::<$t>::serialize_value(w, v)),
                2 => er(ValueWriter::<$t>::write_value(&mut DynW(w), v)),
                3 => er(ValueSerializer::<$t>::serialize_value(&mut DynW(w), v)),
                4 => {
                    let mut d = DynW(w);
                    let o: &mut dyn ValueWriter<$t> = &mut d;
                    er(ValueSerializer::<$t>::serialize_value(o, v))
                }
                _ => er($f(v, w)),
            }
        }};
    }
    match v {
        WT::U8(x) => fixed!(u8, write_u8, *x),
        WT::I8(x) => fixed!(i8, write_i8, *x),
        WT::U16(x) => fixed!(u16, write_u16, *x),
        WT::I16(x) => fixed!(i16, write_i16, *x),
        WT::U32(x) => fixed!(u32, write_u32, *x),
        WT::I32(x) => fixed!(i32, write_i32, *x),
        WT::U64(x) => fixed!(u64, write_u64, *x),
        WT::I64(x) => fixed!(i64, write_i64, *x),
        WT::F32(x) => fixed!(f32, write_f32, f32::from_bits(*x)),
        WT::F64(x) => fixed!(f64, write_f64, f64::from_bits(*x)),
        WT::Str(s) => {
            let s: &str = s;
            match fl {
                0 => er(ValueWriter::<&str>::write_value(w, s)),
                1 => er(ValueSerializer::<&str>::serialize_value(w, s)),
                2 => er(ValueWriter::<&str>::write_value(&mut DynW(w), s)),
                3 => er(ValueSerializer::<&str>::serialize_value(&mut DynW(w), s)),
                _ => er(write_string(s, w)),
            }
        }
        WT::ILInt(x) => match fl {
            0 => er(ILIntWriter::write_ilint(w, *x)),
            1 => er(ILIntSerializer::serialize_ilint(w, *x)),
            2 => er(ILIntWriter::write_ilint(&mut DynW(w), *x)),
            3 => er(ILIntSerializer::serialize_ilint(&mut DynW(w), *x)),
            4 => {
                let mut d = DynW(w);
                let o: &mut dyn ILIntWriter = &mut d;
                er(ILIntSerializer::serialize_ilint(o, *x))
            }
            _ => match choose(3) {
                0 => er(ilint::encode(*x, w)),
                1 => er(write_ilint(*x, w)),
                _ => er(ser::serialize_ilint(*x, w)),
            },
        },
        WT::SILInt(x) => match fl {
            0 => er(SignedILIntWriter::write_signed_ilint(w, *x)),
            1 => er(SignedILIntSerializer::serialize_signed_ilint(w, *x)),
            2 => er(SignedILIntWriter::write_signed_ilint(&mut DynW(w), *x)),
            3 => er(SignedILIntSerializer::serialize_signed_ilint(&mut DynW(w), *x)),
            4 => {
                let mut d = DynW(w);
                let o: &mut dyn SignedILIntWriter = &mut d;
                er(SignedILIntSerializer::serialize_signed_ilint(o, *x))
            }
            _ => match choose(2) {
                0 => er(ilint::signed_encode(*x, w)),
                _ => er(write_signed_ilint(*x, w)),
            },
        },
        WT::Bytes(b) => match fl {
            0 => er(ByteArraySerializer::serialize_bytes(w, b)),
            1 => er(ByteArraySerializer::serialize_byte_vec(w, b)),
            2 => er(ByteArraySerializer::serialize_bytes(&mut DynW(w), b)),
            3 => er(ByteArraySerializer::serialize_byte_vec(&mut DynW(w), b)),
            _ => er(ser::serialize_bytes(b, w)),
        },
    }
}
