//! Scalar shapes: the described number format decodes every bit pattern to the number it is.
use facet::Facet;
use facet_core::{ConstTypeId, Def, NumberAffinity, NumberBits, PtrConst, ScalarAffinity, ScalarDef, Shape, Signedness};
use facet_reflect::{Peek, ScalarType};
use mc::*;
use std::borrow::Cow;
use std::marker::PhantomData;
use std::net::*;
use std::num::NonZero;
use std::path::{Path, PathBuf};

fn main() {
    mc::main(Check {
        id: "C06",
        level: "model_checking",
        rule: "every integer, non-zero integer and float type: every bit pattern of 8 and 16 bits, of 32-bit floats every upper half with chosen lower halves (thorough: all 2^32), of the others all runs of ones and their neighbours, decoded with the width, sign, exponent and mantissa the shape gives, and compared with the value's order, text and class; limits, infinities, zeros, NaN and epsilon the shape points to against all of these; kinds and ScalarType of all scalars and of types that are none; strings of every length to 64 against the described inline length",
        assumptions: "the compiler's float-to-text and integer casts",
        run,
    });
}

fn number(shape: &'static Shape) -> Result<NumberAffinity, String> {
    match shape.def {
        Def::Scalar(ScalarDef { affinity: ScalarAffinity::Number(n), .. }) => Ok(n),
        d => Err(format!("not described as a number: {d:?}")),
    }
}

trait Int: Facet + Copy + Ord + std::fmt::Display + 'static {
    const NAME: &'static str;
    const SCALAR: Option<ScalarType>;
    /// the value with these bits, if there is one
    fn of(bits: u128) -> Option<Self>;
}
macro_rules! ints {
    ($($t:ident $u:ident $s:expr;)*) => { $(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            const SCALAR: Option<ScalarType> = $s;
            fn of(bits: u128) -> Option<Self> { Some(bits as $u as $t) }
        }
        impl Int for NonZero<$t> {
            const NAME: &'static str = concat!("NonZero<", stringify!($t), ">");
            const SCALAR: Option<ScalarType> = None;
            fn of(bits: u128) -> Option<Self> { NonZero::new(bits as $u as $t) }
        }
    )* };
}
ints! {
    u8 u8 Some(ScalarType::U8); u16 u16 Some(ScalarType::U16); u32 u32 Some(ScalarType::U32); u64 u64 Some(ScalarType::U64); usize usize Some(ScalarType::USize); u128 u128 None;
    i8 u8 Some(ScalarType::I8); i16 u16 Some(ScalarType::I16); i32 u32 Some(ScalarType::I32); i64 u64 Some(ScalarType::I64); isize usize Some(ScalarType::ISize); i128 u128 None;
}

/// all runs of ones, their complements, and the numbers next to them
fn patterns(bits: usize, thorough: bool) -> Vec<u128> {
    if bits <= 16 {
        return (0..1u128 << bits).collect();
    }
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let mut v = vec![];
    for lo in 0..bits {
        for hi in lo..=bits {
            let run = (if hi == 128 { u128::MAX } else { (1u128 << hi) - 1 }) & !((1u128 << lo) - 1);
            for x in [run, !run] {
                let r = if thorough { 40 } else { 3 };
                for d in 0..=r {
                    v.push(x.wrapping_add(d) & mask);
                    v.push(x.wrapping_sub(d) & mask);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// the bytes at a place, in the order of their weight
unsafe fn bits_at(p: *const u8, n: usize) -> u128 {
    let mut b = [0u8; 16];
    for (i, x) in b.iter_mut().enumerate().take(n) {
        *x = unsafe { *p.add(if cfg!(target_endian = "little") { i } else { n - 1 - i }) };
    }
    u128::from_le_bytes(b)
}

fn decimal(neg: bool, mag: u128) -> String {
    format!("{}{mag}", if neg { "-" } else { "" })
}

fn int<T: Int>(ctx: &mut Ctx) {
    let size = size_of::<T>();
    let pats = patterns(size * 8, ctx.thorough());
    let peek_at = |p: PtrConst<'static>| unsafe { bits_at(p.as_byte_ptr(), size) };
    for (i, chunk) in pats.chunks(256).enumerate() {
        ctx.case(&format!("{} decodes", T::NAME), &|| format!("patterns {:#x}.. (part {i})", chunk[0]), || {
            let n = number(T::SHAPE)?;
            let NumberBits::Integer { bits, sign } = n.bits else { return Err(format!("not described as an integer: {:?}", n.bits)) };
            if bits != T::SHAPE.layout.size() * 8 || bits != size * 8 {
                return Err(format!("{bits} bits in {size} bytes"));
            }
            let (min, max) = (T::of(peek_at(n.min)).ok_or("min is not a value")?, T::of(peek_at(n.max)).ok_or("max is not a value")?);
            let mut seen = 0;
            for &p in chunk {
                let Some(v) = T::of(p) else { continue };
                // through the shape: the value's own bytes, and how many there are and what they mean
                let raw = unsafe { bits_at(Peek::new(&v).data().as_byte_ptr(), bits / 8) };
                let top = raw >> (bits - 1) & 1 == 1;
                let text = match sign {
                    Signedness::Signed if top => decimal(true, (!raw).wrapping_add(1) & (if bits == 128 { u128::MAX } else { (1 << bits) - 1 })),
                    _ => decimal(false, raw),
                };
                if text != v.to_string() {
                    return Err(format!("{v} is described as {text}"));
                }
                if v < min || max < v {
                    return Err(format!("{v} is not within the described {min}..={max}"));
                }
                seen += 1;
            }
            Ok(CaseOut { class: fnv(format!("{} {sign:?} {}", T::NAME, chunk[0]).as_bytes()), states: seen, transitions: seen })
        });
    }
    ctx.case("what integers lack", &|| T::NAME.into(), || {
        let n = number(T::SHAPE)?;
        if n.positive_infinity.is_some() || n.negative_infinity.is_some() || n.nan_sample.is_some() || n.negative_zero.is_some() {
            return Err("described with an infinity, NaN or negative zero".into());
        }
        if let Some(z) = n.positive_zero {
            if peek_at(z) != 0 || T::of(0).is_none() {
                return Err("described zero is not".into());
            }
        }
        ok()
    });
    let one = T::of(1).unwrap();
    kind(ctx, T::NAME, &one, "Number", T::SCALAR);
}

trait Flt: Facet + Copy + PartialOrd + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const SCALAR: ScalarType;
    fn of(bits: u128) -> Self;
    fn wide(self) -> f64;
    fn epsilon() -> Self;
}
impl Flt for f32 {
    const NAME: &'static str = "f32";
    const SCALAR: ScalarType = ScalarType::F32;
    fn of(bits: u128) -> Self {
        f32::from_bits(bits as u32)
    }
    fn wide(self) -> f64 {
        self as f64
    }
    fn epsilon() -> Self {
        f32::EPSILON
    }
}
impl Flt for f64 {
    const NAME: &'static str = "f64";
    const SCALAR: ScalarType = ScalarType::F64;
    fn of(bits: u128) -> Self {
        f64::from_bits(bits as u64)
    }
    fn wide(self) -> f64 {
        self
    }
    fn epsilon() -> Self {
        f64::EPSILON
    }
}

/// the number these bits are in the described format; powers of two are multiplied exactly
fn decode(raw: u128, b: &(usize, usize, usize, bool)) -> f64 {
    let &(s, e, m, explicit) = b;
    let mant = raw & ((1 << m) - 1);
    let exp = (raw >> m & ((1 << e) - 1)) as i32;
    let neg = s == 1 && raw >> (m + e) & 1 == 1;
    let frac = if explicit { mant & !(1 << (m - 1)) } else { mant };
    let unit = if explicit { m as i32 - 1 } else { m as i32 };
    let bias = (1 << (e - 1)) - 1;
    let x = if exp == (1 << e) - 1 {
        if frac != 0 { f64::NAN } else { f64::INFINITY }
    } else {
        let sig = if explicit || exp == 0 { mant } else { mant | 1 << m };
        let mut p = exp.max(1) - bias - unit;
        let mut x = sig as f64;
        while p < -500 {
            x *= pow2(-500);
            p += 500;
        }
        while p > 500 {
            x *= pow2(500);
            p -= 500;
        }
        x * pow2(p)
    };
    if neg { -x } else { x }
}
fn pow2(p: i32) -> f64 {
    let mut x = 1.0f64;
    for _ in 0..p.abs() {
        x *= 2.0;
    }
    if p < 0 { 1.0 / x } else { x }
}

fn float<T: Flt>(ctx: &mut Ctx, chunks: impl Iterator<Item = Box<dyn Iterator<Item = u128>>>) {
    let size = size_of::<T>();
    let format = || match number(T::SHAPE)?.bits {
        NumberBits::Float { sign_bits, exponent_bits, mantissa_bits, has_explicit_first_mantissa_bit: x } => {
            if sign_bits > 1 || exponent_bits < 2 || exponent_bits > 15 || sign_bits + exponent_bits + mantissa_bits != size * 8 || T::SHAPE.layout.size() != size {
                return Err(format!("{sign_bits} + {exponent_bits} + {mantissa_bits} bits in {size} bytes"));
            }
            Ok((sign_bits, exponent_bits, mantissa_bits, x))
        }
        b => Err(format!("not described as a float: {b:?}")),
    };
    let at = |p: Option<PtrConst<'static>>| p.map(|p| T::of(unsafe { bits_at(p.as_byte_ptr(), size) }));
    for (i, chunk) in chunks.enumerate() {
        ctx.case(&format!("{} decodes", T::NAME), &|| format!("part {i}"), move || {
            let f = format()?;
            let n = number(T::SHAPE)?;
            let (min, max) = (at(Some(n.min)).unwrap(), at(Some(n.max)).unwrap());
            let (inf, ninf) = (at(n.positive_infinity).ok_or("no infinity")?, at(n.negative_infinity).ok_or("no negative infinity")?);
            // decoding needs 2^p for one of the exponents only
            let mut seen = 0;
            let mut last = (u128::MAX, 0.0);
            for p in chunk {
                let v = T::of(p);
                let raw = unsafe { bits_at(Peek::new(&v).data().as_byte_ptr(), size) };
                let hi = raw >> f.2.min(127);
                // values with the same exponent, normal ones: one ulp at a time from the first of them
                let d = if hi == last.0 && !f.3 && (hi & ((1 << f.1) - 1)) != 0 && (hi & ((1 << f.1) - 1)) != (1 << f.1) - 1 && size == 4 {
                    let m = (raw & ((1 << f.2) - 1)) as f64 / (1u64 << f.2) as f64;
                    last.1 * (1.0 + m)
                } else {
                    last = (hi, decode(hi << f.2, &f));
                    decode(raw, &f)
                };
                let w = v.wide();
                if !(d.is_nan() && w.is_nan()) && d.to_bits() != w.to_bits() {
                    return Err(format!("{v:?} (bits {raw:#x}) is described as {d:?}"));
                }
                if w.is_finite() && !(min <= v && v <= max) {
                    return Err(format!("{v:?} is not within the described {min:?}..={max:?}"));
                }
                if !w.is_nan() && !(ninf <= v && v <= inf) {
                    return Err(format!("{v:?} is not within the described infinities {ninf:?} and {inf:?}"));
                }
                seen += 1;
            }
            Ok(CaseOut { class: fnv(format!("{} {i}", T::NAME).as_bytes()), states: seen, transitions: seen })
        });
    }
    for what in ["min", "max", "positive_infinity", "negative_infinity", "nan_sample", "positive_zero", "negative_zero", "epsilon"] {
        ctx.case("float constants", &|| format!("{} {what}", T::NAME), || {
            let f = format()?;
            let n = number(T::SHAPE)?;
            let ptr = match what {
                "min" => Some(n.min),
                "max" => Some(n.max),
                "positive_infinity" => n.positive_infinity,
                "negative_infinity" => n.negative_infinity,
                "nan_sample" => n.nan_sample,
                "positive_zero" => n.positive_zero,
                "negative_zero" => n.negative_zero,
                _ => n.epsilon,
            };
            let raw = unsafe { bits_at(ptr.ok_or("missing")?.as_byte_ptr(), size) };
            let x = decode(raw, &f);
            let right = match what {
                "min" => x.is_finite() && x < 0.0,
                "max" => x.is_finite() && x > 0.0,
                "positive_infinity" => x == f64::INFINITY,
                "negative_infinity" => x == f64::NEG_INFINITY,
                "nan_sample" => x.is_nan(),
                "positive_zero" => x.to_bits() == 0,
                "negative_zero" => x == 0.0 && x.is_sign_negative(),
                // the distance from 1 to the next number
                _ => x == T::epsilon().wide() && x == decode((((1u128 << (f.1 - 1)) - 1) << f.2) + 1, &f) - 1.0,
            };
            if right { ok() } else { Err(format!("is {x:?}")) }
        });
    }
    let one = T::of(0);
    kind(ctx, T::NAME, &one, "Number", Some(T::SCALAR));
}

fn kind_of(a: &ScalarAffinity) -> &'static str {
    match a {
        ScalarAffinity::Number(_) => "Number",
        ScalarAffinity::ComplexNumber(_) => "ComplexNumber",
        ScalarAffinity::String(_) => "String",
        ScalarAffinity::Boolean(_) => "Boolean",
        ScalarAffinity::Empty(_) => "Empty",
        ScalarAffinity::SocketAddr(_) => "SocketAddr",
        ScalarAffinity::IpAddr(_) => "IpAddr",
        ScalarAffinity::UUID(_) => "UUID",
        ScalarAffinity::Time(_) => "Time",
        ScalarAffinity::Opaque(_) => "Opaque",
        ScalarAffinity::Other(_) => "Other",
        ScalarAffinity::Char(_) => "Char",
        ScalarAffinity::Path(_) => "Path",
        _ => "?",
    }
}

/// the kind of scalar a type is (none if empty), and its ScalarType
fn kind<T: Facet>(ctx: &mut Ctx, name: &str, value: &T, exp: &str, scalar: Option<ScalarType>) {
    ctx.case("kinds", &|| name.into(), || {
        let got = match T::SHAPE.def {
            Def::Scalar(s) => kind_of(&s.affinity),
            _ => "",
        };
        if got != exp {
            return Err(format!("described as {got:?}, is {exp:?}"));
        }
        let p = Peek::new(value);
        for (how, s) in [("shape", ScalarType::try_from_shape(T::SHAPE)), ("peek", p.scalar_type()), ("inner", ScalarType::try_from_shape(p.shape()))] {
            if s != scalar {
                return Err(format!("scalar type by {how} {s:?}, is {scalar:?}"));
            }
        }
        Ok(CaseOut { class: fnv(format!("{exp} {scalar:?}").as_bytes()), states: 1, transitions: 4 })
    });
}

fn inline<T: Facet>(ctx: &mut Ctx, name: &str, make: fn(&'static str) -> T, bytes: fn(&T) -> &[u8]) {
    for len in 0..=64 {
        ctx.case("inline strings", &|| format!("{name} of {len} bytes"), || {
            let Def::Scalar(ScalarDef { affinity: ScalarAffinity::String(s), .. }) = T::SHAPE.def else { return Err("not a string".into()) };
            let Some(max) = s.max_inline_length else { return ok() };
            let v = make(&"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnop"[..len]);
            let at = bytes(&v).as_ptr() as usize;
            let own = &v as *const T as usize;
            let inside = len > 0 && (own..own + size_of::<T>()).contains(&at);
            if inside != (len > 0 && len <= max) {
                return Err(format!("inline: {inside}, described inline length {max}"));
            }
            Ok(CaseOut { class: fnv(format!("{name} {inside}").as_bytes()), states: 1, transitions: 1 })
        });
    }
}

#[derive(Facet)]
struct One(u8);
#[derive(Facet)]
#[repr(transparent)]
struct Thin {
    a: f64,
}
#[derive(Facet)]
#[repr(u8)]
#[allow(dead_code)]
enum Fieldless {
    A,
    B,
}
#[derive(Facet)]
struct Nothing;

fn run(ctx: &mut Ctx) {
    macro_rules! all { ($($t:ty)*) => { $( int::<$t>(ctx); int::<NonZero<$t>>(ctx); )* } }
    all!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);

    let lows: Vec<u128> = patterns(16, false).into_iter().filter(|p| (p & (p + 1)) == 0 || p.is_power_of_two() || !p & 0xffff == 0xffff >> 1 || (!p & 0xffff).is_power_of_two()).collect();
    if ctx.thorough() {
        float::<f32>(ctx, (0..1u128 << 12).map(|hi| Box::new((0..1u128 << 20).map(move |lo| hi << 20 | lo)) as Box<dyn Iterator<Item = u128>>));
    } else {
        float::<f32>(ctx, (0..1u128 << 8).map(|hi| {
            let lows = lows.clone();
            Box::new((0..1u128 << 8).flat_map(move |mid| lows.clone().into_iter().map(move |lo| hi << 24 | mid << 16 | lo))) as Box<dyn Iterator<Item = u128>>
        }));
    }
    let exps: Vec<u128> = (0..1u128 << 12).collect();
    let mants: Vec<u128> = patterns(52, false).into_iter().filter(|p| ctx.thorough() || p.count_ones() <= 2 || p.count_ones() >= 50).collect();
    let mants = std::rc::Rc::new(mants);
    let parts: Vec<Vec<u128>> = exps.chunks(16).map(|c| c.to_vec()).collect();
    float::<f64>(ctx, parts.into_iter().map(move |es| {
        let m = mants.clone();
        Box::new(es.into_iter().flat_map(move |e| {
            let m = m.clone();
            (0..m.len()).map(move |i| e << 52 | m[i])
        })) as Box<dyn Iterator<Item = u128>>
    }));

    kind(ctx, "bool", &true, "Boolean", Some(ScalarType::Bool));
    kind(ctx, "char", &'x', "Char", None);
    kind(ctx, "&str", &"", "String", Some(ScalarType::Str));
    kind(ctx, "String", &String::new(), "String", Some(ScalarType::String));
    kind(ctx, "Cow<str>", &Cow::<'static, str>::Borrowed(""), "String", Some(ScalarType::CowStr));
    kind(ctx, "()", &(), "Empty", Some(ScalarType::Unit));
    kind(ctx, "PhantomData<u8>", &PhantomData::<u8>, "Empty", None);
    kind(ctx, "PhantomData<str>", &PhantomData::<str>, "Empty", None);
    let v4 = Ipv4Addr::new(1, 2, 3, 4);
    kind(ctx, "SocketAddr", &SocketAddr::from((v4, 80)), "SocketAddr", Some(ScalarType::SocketAddr));
    kind(ctx, "IpAddr", &IpAddr::from(v4), "IpAddr", Some(ScalarType::IpAddr));
    kind(ctx, "Ipv4Addr", &v4, "IpAddr", Some(ScalarType::Ipv4Addr));
    kind(ctx, "Ipv6Addr", &Ipv6Addr::LOCALHOST, "IpAddr", Some(ScalarType::Ipv6Addr));
    kind(ctx, "PathBuf", &PathBuf::new(), "Path", None);
    kind::<&'static Path>(ctx, "&Path", &Path::new(""), "Path", None);
    kind(ctx, "Utf8PathBuf", &camino::Utf8PathBuf::new(), "Path", None);
    kind::<&'static camino::Utf8Path>(ctx, "&Utf8Path", &camino::Utf8Path::new(""), "Path", None);
    kind(ctx, "ConstTypeId", &ConstTypeId::of::<u8>(), "Opaque", Some(ScalarType::ConstTypeId));
    // not scalars
    kind(ctx, "One", &One(1), "", None);
    kind(ctx, "Thin", &Thin { a: 1.0 }, "", None);
    kind(ctx, "Fieldless", &Fieldless::A, "", None);
    kind(ctx, "Nothing", &Nothing, "", None);
    kind(ctx, "Option<u8>", &Some(1u8), "", None);
    kind(ctx, "Vec<u8>", &vec![1u8], "", None);
    kind(ctx, "[u8; 1]", &[1u8], "", None);
    kind(ctx, "(u8,)", &(1u8,), "", None);
    kind(ctx, "Arc<u8>", &std::sync::Arc::new(1u8), "", None);
    kind(ctx, "HashMap", &std::collections::HashMap::<u8, u8>::new(), "", None);
    let _ = (One(1).0, Thin { a: 1.0 }.a);

    inline::<String>(ctx, "String", |s| s.to_string(), |s| s.as_bytes());
    inline::<&'static str>(ctx, "&str", |s| s, |s| s.as_bytes());
    inline::<Cow<'static, str>>(ctx, "owned Cow", |s| Cow::Owned(s.to_string()), |s| s.as_bytes());
}
