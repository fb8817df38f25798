//! try_put_f64: every destination type x every number at and around every limit.
use facet_reflect::Wip;
use mc::*;
use std::borrow::Cow;
use std::net::{Ipv4Addr, SocketAddr};
use std::num::NonZero;
use std::path::PathBuf;

#[derive(facet::Facet)]
#[repr(u8)]
#[allow(dead_code)]
enum Fieldless {
    A,
    B,
}
#[derive(facet::Facet)]
#[allow(dead_code)]
struct Newtype(f64);
#[derive(facet::Facet)]
#[repr(transparent)]
#[allow(dead_code)]
struct Transparent(u32);

trait Num: facet::Facet + Copy + 'static {
    const NAME: &'static str;
    /// the value a number is to be stored as, if it fits
    fn of(n: f64) -> Option<Self>;
    fn same(&self, o: &Self) -> bool;
    fn some() -> Self;
    fn show(&self) -> String;
}
/// sign and exact magnitude of a float, if it is whole and below 2^128
fn whole(n: f64) -> Option<(bool, u128)> {
    let bits = n.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let frac = bits & ((1 << 52) - 1);
    if exp == 0x7ff {
        return None;
    }
    let (m, e) = if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp - 1075) };
    if m == 0 {
        return Some((false, 0));
    }
    let v: u128 = if e >= 0 {
        if e > 75 {
            return None;
        }
        (m as u128) << e
    } else {
        let e = -e;
        if e > 60 || m & ((1u64 << e) - 1) != 0 {
            return None;
        }
        (m >> e) as u128
    };
    Some((bits >> 63 != 0, v))
}
macro_rules! ints {
    ($($t:ty),*) => { $(
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            fn of(n: f64) -> Option<Self> {
                match whole(n)? {
                    (true, v) if v <= 1 << 127 => <$t>::try_from((v as i128).wrapping_neg()).ok(),
                    (true, _) => None,
                    (false, v) => <$t>::try_from(v).ok(),
                }
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn some() -> Self { 42 }
            fn show(&self) -> String { self.to_string() }
        }
        impl Num for NonZero<$t> {
            const NAME: &'static str = concat!("NonZero<", stringify!($t), ">");
            fn of(n: f64) -> Option<Self> { NonZero::new(<$t as Num>::of(n)?) }
            fn same(&self, o: &Self) -> bool { self == o }
            fn some() -> Self { NonZero::new(42).unwrap() }
            fn show(&self) -> String { self.to_string() }
        }
    )* };
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Num for f64 {
    const NAME: &'static str = "f64";
    fn of(n: f64) -> Option<Self> {
        Some(n)
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn some() -> Self {
        1.5
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}
impl Num for f32 {
    const NAME: &'static str = "f32";
    fn of(n: f64) -> Option<Self> {
        (n.abs() <= f32::MAX as f64).then_some(n as f32)
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn some() -> Self {
        1.5
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

/// refused, or what is stored
type Got<T> = Option<T>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Root,
    Field,
    FieldAgain,
    Element,
    Inner,
}
const PLACES: [Place; 5] = [Place::Root, Place::Field, Place::FieldAgain, Place::Element, Place::Inner];

/// stores `n` into a place of type T
fn store<T: Num>(n: f64, place: Place) -> Result<Got<T>, String> {
    let e = |e: facet_reflect::ReflectError| format!("unexpected error: {e}");
    match place {
        Place::Root => {
            let w = Wip::alloc::<T>();
            if !w.can_put_f64() {
                return Err("can_put_f64 is false".into());
            }
            match w.try_put_f64(n) {
                Ok(w) => Ok(Some(w.build().map_err(e)?.materialize::<T>().map_err(e)?)),
                Err(_) => Ok(None),
            }
        }
        Place::Field | Place::FieldAgain => {
            let mut w = Wip::alloc::<(u8, T, u8)>().field(0).and_then(|w| w.put(0xa5u8)).and_then(|w| w.pop()).map_err(e)?;
            w = w.field(2).and_then(|w| w.put(0x5au8)).and_then(|w| w.pop()).map_err(e)?;
            w = w.field(1).map_err(e)?;
            if place == Place::FieldAgain {
                w = w.put(T::some()).and_then(|w| w.pop()).and_then(|w| w.field(1)).map_err(e)?;
            }
            match w.try_put_f64(n) {
                Ok(w) => {
                    let (a, x, b) =
                        w.pop().and_then(|w| w.build()).and_then(|h| h.materialize::<(u8, T, u8)>()).map_err(e)?;
                    if (a, b) != (0xa5, 0x5a) {
                        return Err(format!("neighbours overwritten: {a:#x} {b:#x}"));
                    }
                    Ok(Some(x))
                }
                Err(_) => Ok(None),
            }
        }
        Place::Element => {
            let w = Wip::alloc::<Vec<T>>().put_empty_list().and_then(|w| w.push()).map_err(e)?;
            match w.try_put_f64(n) {
                Ok(w) => {
                    let v = w.pop().and_then(|w| w.build()).and_then(|h| h.materialize::<Vec<T>>()).map_err(e)?;
                    if v.len() != 1 {
                        return Err(format!("{} elements", v.len()));
                    }
                    Ok(Some(v[0]))
                }
                Err(_) => Ok(None),
            }
        }
        Place::Inner => {
            let w = Wip::alloc::<Option<T>>().push_some().map_err(e)?;
            match w.try_put_f64(n) {
                Ok(w) => {
                    let v = w.pop().and_then(|w| w.build()).and_then(|h| h.materialize::<Option<T>>()).map_err(e)?;
                    Ok(Some(v.ok_or("None")?))
                }
                Err(_) => Ok(None),
            }
        }
    }
}

fn numbers(thorough: bool) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::MIN_POSITIVE, f64::EPSILON, f64::from_bits(1)];
    let mut near: Vec<f64> = vec![];
    for e in -1074..1024i32 {
        near.push(2f64.powi(e));
    }
    for t in [f32::MAX as f64, f64::MAX, f32::MIN_POSITIVE as f64, 16777217.0, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20] {
        near.push(t);
    }
    for x in near {
        let b = x.to_bits();
        let r = if thorough { 8 } else { 2 };
        for d in -r..=r {
            let y = f64::from_bits(b.saturating_add_signed(d));
            for s in [y, -y] {
                v.push(s);
            }
        }
        if (1.0..1e20).contains(&x) {
            for d in [-2.0, -1.5, -1.0, -0.5, -0.25, 0.25, 0.5, 1.0, 1.5, 2.0] {
                v.push(x + d);
                v.push(-x + d);
            }
        }
    }
    v.sort_by_key(|x| x.to_bits());
    v.dedup_by_key(|x| x.to_bits());
    v
}

fn check<T: Num>(ctx: &mut Ctx, numbers: &[f64]) {
    for place in PLACES {
        let g = format!("{} {place:?}", T::NAME);
        for &n in numbers {
            ctx.case(&g, &|| format!("{n:?} (bits {:#x})", n.to_bits()), || {
                let mut got = None;
                let (_, rep) = tracked(|| {
                    let r = store::<T>(n, place);
                    untracked(|| got = Some(r.clone()));
                });
                if !rep.clean() {
                    return Err(rep.describe());
                }
                let got = got.unwrap()?;
                let exp = T::of(n);
                let same = match (&got, &exp) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.same(b),
                    _ => false,
                };
                if !same {
                    return Err(format!("got {:?}, expected {:?}", got.map(|x| x.show()), exp.map(|x| x.show())));
                }
                Ok(CaseOut { class: fnv(exp.map(|x| x.show()).unwrap_or_default().as_bytes()), states: 1, transitions: 1 })
            });
        }
    }
    // halves of every 16-bit number
    let r: i32 = 0x10400;
    let mut lo = -2 * r;
    while lo < 2 * r {
        let hi = lo + 1024;
        ctx.case(&format!("{} all halves", T::NAME), &|| format!("{}..{} halves", lo, hi), || {
            for h in lo..hi {
                let n = h as f64 / 2.0;
                let got = store::<T>(n, Place::Root)?;
                let exp = T::of(n);
                let same = match (&got, &exp) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.same(b),
                    _ => false,
                };
                if !same {
                    return Err(format!("{n}: got {:?}, expected {:?}", got.map(|x| x.show()), exp.map(|x| x.show())));
                }
            }
            Ok(CaseOut { class: fnv(T::NAME.as_bytes()), states: 1024, transitions: 1024 })
        });
        lo = hi;
    }
}

/// places that hold no number refuse all of them
fn refuse<T: facet::Facet>(ctx: &mut Ctx, name: &str) {
    for n in [0.0, 1.0, -1.0, 97.0, 0.5, f64::NAN, f64::INFINITY] {
        ctx.case("not a number", &|| format!("{n:?} into {name}"), || {
            let (r, rep) = tracked(|| {
                let w = Wip::alloc::<T>();
                !w.can_put_f64() && w.try_put_f64(n).is_err()
            });
            if !rep.clean() {
                return Err(rep.describe());
            }
            if r { ok() } else { Err("accepted".into()) }
        });
    }
}

fn main() {
    mc::main(Check {
        id: "W05",
        level: "model_checking",
        rule: "every numeric type x {root, field, field set again, list element, option content} x every power of two, type limit and decimal limit with its neighbouring floats, halves and wholes, both signs, infinities, NaNs, denormals; and every half-integer of magnitude up to 2^16; types that hold no number refuse",
        assumptions: "reference conversion decodes the IEEE-754 bits by itself; f32 rounding is the compiler's `as`",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    let v = numbers(ctx.thorough());
    macro_rules! all { ($($t:ty),*) => { $( check::<$t>(ctx, &v); check::<NonZero<$t>>(ctx, &v); )* } }
    all!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    check::<f32>(ctx, &v);
    check::<f64>(ctx, &v);
    refuse::<bool>(ctx, "bool");
    refuse::<String>(ctx, "String");
    refuse::<char>(ctx, "char");
    refuse::<&'static str>(ctx, "&str");
    refuse::<()>(ctx, "()");
    refuse::<Option<u8>>(ctx, "Option<u8>");
    refuse::<Vec<u8>>(ctx, "Vec<u8>");
    refuse::<Ipv4Addr>(ctx, "Ipv4Addr");
    refuse::<SocketAddr>(ctx, "SocketAddr");
    refuse::<PathBuf>(ctx, "PathBuf");
    refuse::<Cow<'static, str>>(ctx, "Cow");
    refuse::<Fieldless>(ctx, "Fieldless");
    refuse::<Newtype>(ctx, "Newtype");
    refuse::<Transparent>(ctx, "Transparent");
    refuse::<std::sync::Arc<f64>>(ctx, "Arc<f64>");
    refuse::<(u8,)>(ctx, "(u8,)");
    refuse::<[u8; 1]>(ctx, "[u8; 1]");
    refuse::<std::collections::HashMap<u8, u8>>(ctx, "HashMap<u8, u8>");
}
