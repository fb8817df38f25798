//! An independent MessagePack reader and writer, and what an encoding means for a type.
use crate::native::*;
use crate::json::int_range;
use crate::universe::*;
use crate::{native_struct, native_tuple_struct};

#[derive(Clone, Debug, PartialEq)]
pub enum Mp {
    Nil,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Bin(Vec<u8>),
    Arr(Vec<Mp>),
    Map(Vec<(Mp, Mp)>),
    Ext(u8, Vec<u8>),
}

/// Reads one value; what follows it is left. `None` if malformed or cut off.
pub fn read(b: &mut &[u8]) -> Option<Mp> {
    fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
        if n > b.len() {
            return None;
        }
        let (x, y) = b.split_at(n);
        *b = y;
        Some(x)
    }
    fn be(b: &mut &[u8], n: usize) -> Option<u64> {
        Some(take(b, n)?.iter().fold(0, |a, x| a << 8 | *x as u64))
    }
    fn arr(b: &mut &[u8], n: u64) -> Option<Mp> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(read(b)?);
        }
        Some(Mp::Arr(v))
    }
    fn map(b: &mut &[u8], n: u64) -> Option<Mp> {
        let mut v = vec![];
        for _ in 0..n {
            let k = read(b)?;
            v.push((k, read(b)?));
        }
        Some(Mp::Map(v))
    }
    fn ext(b: &mut &[u8], n: u64) -> Option<Mp> {
        let t = be(b, 1)? as u8;
        Some(Mp::Ext(t, take(b, n as usize)?.to_vec()))
    }
    let m = be(b, 1)? as u8;
    Some(match m {
        0..=0x7f => Mp::Int(m as i128),
        0x80..=0x8f => map(b, m as u64 & 15)?,
        0x90..=0x9f => arr(b, m as u64 & 15)?,
        0xa0..=0xbf => Mp::Str(take(b, m as usize & 31)?.to_vec()),
        0xc0 => Mp::Nil,
        0xc1 => return None,
        0xc2 | 0xc3 => Mp::Bool(m == 0xc3),
        0xc4..=0xc6 => {
            let n = be(b, 1 << (m - 0xc4))?;
            Mp::Bin(take(b, n as usize)?.to_vec())
        }
        0xc7..=0xc9 => {
            let n = be(b, 1 << (m - 0xc7))?;
            ext(b, n)?
        }
        0xca => Mp::F32(be(b, 4)? as u32),
        0xcb => Mp::F64(be(b, 8)?),
        0xcc..=0xcf => Mp::Int(be(b, 1 << (m - 0xcc))? as i128),
        0xd0 => Mp::Int(be(b, 1)? as i8 as i128),
        0xd1 => Mp::Int(be(b, 2)? as i16 as i128),
        0xd2 => Mp::Int(be(b, 4)? as i32 as i128),
        0xd3 => Mp::Int(be(b, 8)? as i64 as i128),
        0xd4..=0xd8 => ext(b, 1 << (m - 0xd4))?,
        0xd9..=0xdb => {
            let n = be(b, 1 << (m - 0xd9))?;
            Mp::Str(take(b, n as usize)?.to_vec())
        }
        0xdc | 0xdd => {
            let n = be(b, 2 << (m - 0xdc))?;
            arr(b, n)?
        }
        0xde | 0xdf => {
            let n = be(b, 2 << (m - 0xde))?;
            map(b, n)?
        }
        0xe0..=0xff => Mp::Int(m as i8 as i128),
    })
}

/// Writes a value; `wide` 0: the shortest way, 1.. : wider ways.
pub fn write(v: &Mp, wide: u8, out: &mut Vec<u8>) {
    /// marker for each of the widths, `small` being the one that has the length in it
    fn len(out: &mut Vec<u8>, n: usize, wide: u8, small: Option<(u8, usize)>, sizes: &[(u8, u32)]) {
        let mut ways: Vec<(Option<u8>, u32)> = vec![];
        if let Some((m, max)) = small {
            if n <= max {
                ways.push((Some(m | n as u8), 0));
            }
        }
        for (m, bytes) in sizes {
            if *bytes >= 8 || n < 1 << (8 * bytes) {
                ways.push((Some(*m), *bytes));
            }
        }
        let (m, bytes) = ways[(wide as usize).min(ways.len() - 1)];
        out.push(m.unwrap());
        out.extend(&(n as u64).to_be_bytes()[8 - bytes as usize..]);
    }
    match v {
        Mp::Nil => out.push(0xc0),
        Mp::Bool(b) => out.push(0xc2 + *b as u8),
        Mp::Int(i) => {
            let i = *i;
            let mut ways: Vec<(u8, u32)> = vec![];
            if (-32..128).contains(&i) {
                ways.push((i as u8, 0));
            }
            for k in 0..4u32 {
                let bits = 8 << k;
                if i >= 0 && i < 1 << bits {
                    ways.push((0xcc + k as u8, 1 << k));
                }
                if i < 0 && i >= -(1 << (bits - 1)) {
                    ways.push((0xd0 + k as u8, 1 << k));
                }
            }
            // a signed format for what isn't negative is as good as an unsigned one
            for k in 0..4u32 {
                if i >= 0 && i < 1 << ((8 << k) - 1) {
                    ways.push((0xd0 + k as u8, 1 << k));
                }
            }
            let (m, n) = ways[(wide as usize).min(ways.len() - 1)];
            out.push(m);
            out.extend(&(i as u64).to_be_bytes()[8 - n as usize..]);
        }
        Mp::F32(x) => {
            out.push(0xca);
            out.extend(x.to_be_bytes());
        }
        Mp::F64(x) => {
            out.push(0xcb);
            out.extend(x.to_be_bytes());
        }
        Mp::Str(s) => {
            len(out, s.len(), wide, Some((0xa0, 31)), &[(0xd9, 1), (0xda, 2), (0xdb, 4)]);
            out.extend(s);
        }
        Mp::Bin(s) => {
            len(out, s.len(), wide, None, &[(0xc4, 1), (0xc5, 2), (0xc6, 4)]);
            out.extend(s);
        }
        Mp::Ext(t, s) => {
            let fix = [1usize, 2, 4, 8, 16].iter().position(|n| *n == s.len());
            match fix {
                Some(k) if wide == 0 => out.push(0xd4 + k as u8),
                _ => len(out, s.len(), wide.saturating_sub(1), None, &[(0xc7, 1), (0xc8, 2), (0xc9, 4)]),
            }
            out.push(*t);
            out.extend(s);
        }
        Mp::Arr(v) => {
            len(out, v.len(), wide, Some((0x90, 15)), &[(0xdc, 2), (0xdd, 4)]);
            for x in v {
                write(x, wide, out);
            }
        }
        Mp::Map(v) => {
            len(out, v.len(), wide, Some((0x80, 15)), &[(0xde, 2), (0xdf, 4)]);
            for (k, x) in v {
                write(k, wide, out);
                write(x, wide, out);
            }
        }
    }
}
pub fn bytes(v: &Mp, wide: u8) -> Vec<u8> {
    let mut o = vec![];
    write(v, wide, &mut o);
    o
}

/// What a value is encoded as. `None` for types without an encoding here.
pub fn encode(t: &'static Ty, v: &Val) -> Option<Mp> {
    Some(match (&t.kind, v) {
        (Kind::Leaf, Val::S(s)) if t.name == "String" => Mp::Str(s.clone().into_bytes()),
        (Kind::Leaf, Val::B(b)) => Mp::Bool(*b),
        (Kind::Leaf, Val::I(i)) if encodable_int(&t.name) => Mp::Int(*i),
        (Kind::Struct(fs), Val::Struct(vs)) => {
            Mp::Map(fs.iter().zip(vs).map(|(f, v)| Some((Mp::Str(f.0.as_bytes().to_vec()), encode(f.1(), v)?))).collect::<Option<_>>()?)
        }
        _ => return None,
    })
}
fn encodable_int(n: &str) -> bool {
    ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"].contains(&n)
}
/// How members given several times are understood.
#[derive(Clone, Copy, PartialEq)]
pub enum Twice {
    /// the last one counts
    Last,
    /// maps are merged
    Merge,
}
pub fn decode(t: &'static Ty, m: &Mp, twice: Twice) -> Option<Val> {
    match (&t.kind, m) {
        (Kind::Leaf, Mp::Str(s)) if t.name == "String" => String::from_utf8(s.clone()).ok().map(Val::S),
        (Kind::Leaf, Mp::Bool(b)) if t.name == "bool" => Some(Val::B(*b)),
        (Kind::Leaf, Mp::Int(i)) if encodable_int(&t.name) => {
            let (lo, hi, _) = int_range(&t.name).unwrap();
            (lo <= *i && *i <= hi).then_some(Val::I(*i))
        }
        (Kind::Struct(fs), Mp::Map(ms)) => {
            let mut vals: Vec<Vec<&Mp>> = vec![vec![]; fs.len()];
            for (k, x) in ms {
                let Mp::Str(k) = k else { return None };
                std::str::from_utf8(k).ok()?;
                if let Some(i) = fs.iter().position(|f| f.0.as_bytes() == k.as_slice()) {
                    vals[i].push(x);
                }
            }
            let mut out = vec![];
            for (f, v) in fs.iter().zip(vals) {
                let last = *v.last()?;
                let all: Vec<(Mp, Mp)> = v.iter().flat_map(|m| if let Mp::Map(m) = m { m.clone() } else { vec![] }).collect();
                // earlier ones have to be of the type, too
                for m in &v[..v.len() - 1] {
                    match (m, &f.1().kind) {
                        (Mp::Map(_), Kind::Struct(_)) if twice == Twice::Merge => {}
                        _ => {
                            decode(f.1(), m, twice)?;
                        }
                    }
                }
                out.push(match (&f.1().kind, last) {
                    (Kind::Struct(_), Mp::Map(_)) if twice == Twice::Merge => decode(f.1(), &Mp::Map(all), twice)?,
                    _ => decode(f.1(), last, twice)?,
                });
            }
            Some(Val::Struct(out))
        }
        _ => None,
    }
}

native_struct!(MInts { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: bool, j: String });
native_struct!(MOne { a: u8 });
native_struct!(MTwo { a: u32, b: String });
native_struct!(MNest { p: MTwo, q: MOne, r: i8 });
native_struct!(MDeep { p: MNest, s: bool, t: UnitLike });
native_struct!(M15 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8 });
native_struct!(M16 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: bool });
native_struct!(M17 { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: bool, q: i64 });
// names as long as the formats go
native_struct!(MNames {
    n: u8,
    a23456789_123456789_123456789_1: u8,
    a23456789_123456789_123456789_12: u8,
    a23456789_123456789_123456789_123: u8,
    a23456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_12345: u8,
    a23456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456789_123456: u8,
    é: String,
});
native_tuple_struct!(MTup(0: u8, 1: String));

#[macro_export]
macro_rules! msgpack_types {
    ($m:ident) => {
        $m! {
            bool, u8, u16, u32, u64, i8, i16, i32, i64, String, MInts, MOne, MTwo, MNest, MDeep, M15, M16, M17, MNames, MTup, $crate::universe::Big, $crate::universe::S2, $crate::universe::N2,
            $crate::universe::Deep, $crate::universe::UnitLike, $crate::universe::T2, (u8, String), (i64, (bool, u16)), (u64,)
        }
    };
}
