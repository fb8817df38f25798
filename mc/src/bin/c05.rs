use facet::Facet;
use facet_core::{ConstTypeId, Def, Shape, TypeNameOpts};
use facet_reflect::{Peek, ScalarType};
use mc::*;
use std::any::TypeId;
use std::borrow::Cow;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::marker::PhantomData;
use std::net::*;
use std::num::NonZero;
use std::ptr::NonNull;
use std::sync::{Arc, Weak};

fn main() {
    mc::main(Check {
        id: "C05",
        level: "model_checking",
        rule: "all ordered pairs of a universe of types (every scalar, all constructors over a set of arguments, twice for half of them, derived types with equal names or layouts, all generic instantiations), each reached directly and as field, element, key, value, content, pointee, type parameter: equality of shapes, identifiers, hashes, is_type, assert_type, typed reads, against the compiler's TypeId; names to every depth against names computed from the structure of the type",
        assumptions: "TypeId is the reference; ellipsis characters are not told apart; names of 1-tuples are (T), and a map's hasher is not part of its name",
        run,
    });
}

/// the name a type should have
trait Nm {
    fn nm(ttl: isize) -> String;
}
fn list(ttl: isize, open: &str, items: &[&dyn Fn(isize) -> String], close: &str) -> String {
    if ttl == 0 {
        return format!("{open}…{close}");
    }
    let t = if ttl > 0 { ttl - 1 } else { ttl };
    format!("{open}{}{close}", items.iter().map(|f| f(t)).collect::<Vec<_>>().join(", "))
}
macro_rules! leaf { ($($t:ty => $n:expr),* $(,)?) => { $( impl Nm for $t { fn nm(_: isize) -> String { $n.to_string() } } )* } }
macro_rules! ints { ($($t:ident)*) => { $( leaf!($t => stringify!($t), NonZero<$t> => concat!("NonZero<", stringify!($t), ">")); )* } }
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
leaf!(f32 => "f32", f64 => "f64", bool => "bool", char => "char", String => "String", &'static str => "&str", Cow<'static, str> => "Cow<'_, str>", () => "()",
    SocketAddr => "SocketAddr", IpAddr => "IpAddr", Ipv4Addr => "Ipv4Addr", Ipv6Addr => "Ipv6Addr", std::path::PathBuf => "PathBuf", &'static std::path::Path => "Path",
    camino::Utf8PathBuf => "Utf8PathBuf", &'static camino::Utf8Path => "Utf8Path",
    ConstTypeId => "ConstTypeId", RandomState => "RandomState");
impl<T: ?Sized> Nm for PhantomData<T> {
    fn nm(_: isize) -> String {
        "PhantomData".into()
    }
}
macro_rules! one { ($($t:ident => $open:expr, $close:expr;)*) => { $( impl<T: Nm> Nm for $t<T> { fn nm(ttl: isize) -> String { list(ttl, $open, &[&T::nm], $close) } } )* } }
one!(Vec => "Vec<", ">"; Option => "Option<", ">"; Arc => "Arc<", ">"; Weak => "Weak<", ">"; NonNull => "NonNull<", ">"; );
// (that the parameters are missing from these is checked, and listed, apart)
impl<T> Nm for G<T> {
    fn nm(_: isize) -> String {
        "G".into()
    }
}
impl<T> Nm for GE<T> {
    fn nm(_: isize) -> String {
        "GE".into()
    }
}
impl<T: Nm> Nm for &'static [T] {
    fn nm(ttl: isize) -> String {
        list(ttl, "&[", &[&T::nm], "]")
    }
}
impl<T: Nm, const N: usize> Nm for [T; N] {
    fn nm(ttl: isize) -> String {
        list(ttl, "[", &[&T::nm], &format!("; {N}]"))
    }
}
impl<K: Nm, V: Nm, S> Nm for HashMap<K, V, S> {
    fn nm(ttl: isize) -> String {
        list(ttl, "HashMap<", &[&K::nm, &V::nm], ">")
    }
}
impl<K: Nm, V: Nm> Nm for BTreeMap<K, V> {
    fn nm(ttl: isize) -> String {
        list(ttl, "BTreeMap<", &[&K::nm, &V::nm], ">")
    }
}
macro_rules! tuples { ($($($t:ident)+;)*) => { $( impl<$($t: Nm),+> Nm for ($($t,)+) { fn nm(ttl: isize) -> String { list(ttl, "(", &[$(&$t::nm),+], ")") } } )* } }
tuples!(A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F H; A B C D E F H I; A B C D E F H I J; A B C D E F H I J K; A B C D E F H I J K L; A B C D E F H I J K L M;);

// derived types
#[derive(Facet)]
pub struct S1 {
    a: u8,
}
#[derive(Facet)]
pub struct S2 {
    a: u8,
}
#[derive(Facet)]
pub struct T1(u8);
#[derive(Facet)]
#[repr(transparent)]
pub struct T2(u8);
#[derive(Facet)]
pub struct U1;
#[derive(Facet)]
pub struct U2;
#[derive(Facet)]
#[repr(u8)]
pub enum E1 {
    A,
    B,
}
#[derive(Facet)]
#[repr(u8)]
pub enum E2 {
    A,
    B,
}
pub mod m1 {
    use facet::Facet;
    #[derive(Facet)]
    pub struct Same {
        pub a: u8,
    }
    #[derive(Facet)]
    #[repr(u8)]
    pub enum Other {
        A(u8),
    }
}
pub mod m2 {
    use facet::Facet;
    #[derive(Facet)]
    pub struct Same {
        pub a: u8,
    }
    #[derive(Facet)]
    #[repr(u8)]
    pub enum Other {
        A(u8),
    }
}
leaf!(S1 => "S1", S2 => "S2", T1 => "T1", T2 => "T2", U1 => "U1", U2 => "U2", E1 => "E1", E2 => "E2", m1::Same => "Same", m2::Same => "Same", m1::Other => "Other", m2::Other => "Other", InFn1 => "InFn1");
#[derive(Facet)]
pub struct G<T> {
    a: T,
}
#[derive(Facet)]
#[repr(u8)]
pub enum GE<T> {
    A(T),
}
#[derive(Facet)]
pub struct N<const K: usize> {
    a: [u8; K],
}
leaf!(N<1> => "N", N<2> => "N");
#[derive(Facet)]
pub struct InFn1(u16);

// reaching a type from elsewhere
#[derive(Facet)]
struct Field<T> {
    x: u8,
    y: T,
}
#[derive(Facet)]
#[repr(C)]
struct TupleField<T>(u8, T);
#[derive(Facet)]
#[repr(u16)]
enum VariantField<T> {
    A(u8, T),
    B { x: u8, y: T },
}

struct Entry {
    src: &'static str,
    id: TypeId,
    cid: ConstTypeId,
    shape: &'static Shape,
    name: fn(isize) -> String,
    is: fn(&'static Shape) -> bool,
    asserts: fn(&'static Shape) -> bool,
    reads: fn(Peek<'_>) -> bool,
    reached: Vec<(&'static str, &'static Shape)>,
}
fn entry<T: Facet + Nm + 'static>(src: &'static str) -> Entry {
    Entry {
        src,
        id: TypeId::of::<T>(),
        cid: ConstTypeId::of::<T>(),
        shape: T::SHAPE,
        name: T::nm,
        is: |s| s.is_type::<T>(),
        asserts: |s| catching(|| s.assert_type::<T>()).is_ok(),
        reads: |p| p.get::<T>().is_ok(),
        reached: vec![("itself", T::SHAPE), ("in another crate", mc::shape_of::<T>())],
    }
}
/// the same, and reached from everywhere
fn deep<T: Facet + Nm + 'static>(src: &'static str) -> Entry {
    let mut e = entry::<T>(src);
    let reached = &mut e.reached;
    let fields = |s: &'static Shape| match s.def {
        Def::Struct(d) => d.fields.to_vec(),
        Def::Enum(d) => d.variants.iter().flat_map(|v| v.data.fields.to_vec()).collect(),
        _ => panic!("no fields"),
    };
    reached.push(("a field", fields(Field::<T>::SHAPE)[1].shape()));
    reached.push(("a field by number", fields(TupleField::<T>::SHAPE)[1].shape()));
    reached.push(("a variant's field", fields(VariantField::<T>::SHAPE)[1].shape()));
    reached.push(("a variant's named field", fields(VariantField::<T>::SHAPE)[3].shape()));
    reached.push(("a tuple's element", fields(<(T, u8)>::SHAPE)[0].shape()));
    reached.push(("a tuple's last element", fields(<(u8, u8, T)>::SHAPE)[2].shape()));
    let def = |s: &'static Shape| s.def;
    if let Def::List(d) = def(Vec::<T>::SHAPE) {
        reached.push(("an element", d.t()));
    }
    if let Def::Array(d) = def(<[T; 3]>::SHAPE) {
        reached.push(("an array's element", d.t()));
    }
    if let Def::Slice(d) = def(<&'static [T]>::SHAPE) {
        reached.push(("a slice's element", d.t()));
    }
    if let Def::Option(d) = def(Option::<T>::SHAPE) {
        reached.push(("an option's content", d.t()));
    }
    if let Def::Map(d) = def(HashMap::<u8, T>::SHAPE) {
        reached.push(("a value", d.v));
    }
    if let Def::Map(d) = def(BTreeMap::<u8, T>::SHAPE) {
        reached.push(("a sorted map's value", d.v));
    }
    for (w, s) in [("a pointee", Arc::<T>::SHAPE), ("a weak pointee", Weak::<T>::SHAPE), ("a raw pointee", NonNull::<T>::SHAPE)] {
        if let Def::SmartPointer(d) = s.def {
            if let Some(p) = d.pointee {
                reached.push((w, p));
            }
        }
    }
    for (w, s, i) in [
        ("parameter of Vec", Vec::<T>::SHAPE, 0),
        ("parameter of Option", Option::<T>::SHAPE, 0),
        ("parameter of Arc", Arc::<T>::SHAPE, 0),
        ("parameter of Weak", Weak::<T>::SHAPE, 0),
        ("parameter of NonNull", NonNull::<T>::SHAPE, 0),
        ("parameter of array", <[T; 3]>::SHAPE, 0),
        ("parameter of slice", <&'static [T]>::SHAPE, 0),
        ("parameter of HashMap", HashMap::<u8, T>::SHAPE, 1),
        ("parameter of BTreeMap", BTreeMap::<u8, T>::SHAPE, 1),
        ("parameter of derived", Field::<T>::SHAPE, 0),
        ("parameter of derived enum", VariantField::<T>::SHAPE, 0),
    ] {
        match s.type_params.get(i) {
            Some(p) => reached.push((w, p.shape())),
            None => reached.push((w, <PhantomData<Entry>>::SHAPE)),
        }
    }
    e
}
macro_rules! types { ($v:ident; $($t:ty),* $(,)?) => { $( $v.push(entry::<$t>(stringify!($t))); )* } }
macro_rules! deeply { ($v:ident; $($t:ty),* $(,)?) => { $( $v.push(deep::<$t>(stringify!($t))); )* } }
/// every constructor over $t
macro_rules! over { ($v:ident; $($t:ty),* $(,)?) => { $( types!($v; Vec<$t>, Option<$t>, Arc<$t>, Weak<$t>, NonNull<$t>, &'static [$t], [$t; 0], [$t; 1], [$t; 2], ($t,), ($t, $t), (u8, $t), HashMap<u8, $t>, BTreeMap<u8, $t>, BTreeMap<u16, $t>, HashMap<String, $t>, G<$t>, GE<$t>, PhantomData<$t>); )* } }
macro_rules! maps { ($v:ident; $($t:ty),* $(,)?) => { $( types!($v; HashMap<$t, u32>, BTreeMap<$t, u32>, HashMap<$t, $t>, HashMap<$t, u32, Bh>); )* } }
#[derive(Facet, Default, Clone)]
pub struct Bh;
impl std::hash::BuildHasher for Bh {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        BuildHasherDefault::<DefaultHasher>::default().build_hasher()
    }
}
fn universe() -> Vec<Entry> {
    let mut v = vec![];
    deeply!(v; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, String, &'static str, Cow<'static, str>, (),
    );
    types!(v; NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<usize>, NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>, NonZero<i128>, NonZero<isize>,
        SocketAddr, IpAddr, Ipv4Addr, Ipv6Addr, std::path::PathBuf, &'static std::path::Path, camino::Utf8PathBuf, &'static camino::Utf8Path, ConstTypeId, RandomState,
        
    );
    deeply!(v; S1, S2, T1, T2, U1, U2, E1, E2, m1::Same, m2::Same, m1::Other, m2::Other, InFn1, N<1>, N<2>,
        PhantomData<str>, PhantomData<[u8]>, PhantomData<Entry>,
        
    );
    types!(v; (u8, u16, u8), (u8, u8, u16), (u16, u8, u8), (u8, u8, u8, u8), (u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String));
    over!(v; u8, i8, m1::Same, m2::Same, Vec<u8>, Arc<Option<u8>>);
    maps!(v; u8, i8, String, bool, (), char);
    types!(v; Vec<Vec<Vec<Vec<u8>>>>, HashMap<u8, HashMap<u8, Option<[Vec<u8>; 2]>>>, BTreeMap<String, (Vec<u8>, Option<u16>, [bool; 3])>, Option<Option<Option<u8>>>, Arc<Arc<Vec<u8>>>, &'static [&'static [u8]]);
    v
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn shown(s: &'static Shape, ttl: Option<isize>) -> String {
    struct D(&'static Shape, Option<isize>);
    impl std::fmt::Display for D {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            match self.1 {
                None => write!(f, "{}", self.0),
                Some(0) => self.0.write_type_name(f, TypeNameOpts::none()),
                Some(1) => self.0.write_type_name(f, TypeNameOpts::one()),
                Some(-1) => self.0.write_type_name(f, TypeNameOpts::infinite()),
                Some(n) => {
                    let mut o = TypeNameOpts::none();
                    o.recurse_ttl = n;
                    (self.0.vtable.type_name)(f, o)
                }
            }
        }
    }
    format!("{}", D(s, ttl)).replace('⋯', "…").replace("core::num::", "")
}

fn run(ctx: &mut Ctx) {
    let all = universe();
    #[repr(align(64))]
    struct Buf([u8; 1024]);
    let buf = Box::leak(Box::new(Buf([0; 1024])));
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            ctx.case("pair", &|| format!("{} ({i}) and {} ({j})", a.src, b.src), || {
                let same = a.id == b.id;
                let mut n = 0;
                for (w, s) in &a.reached {
                    let s: &'static Shape = s;
                    let t = b.shape;
                    let mut want = |what: &str, got: bool, exp: bool| if got == exp { n += 1; Ok(()) } else { Err(format!("{what} is {got} as {w}")) };
                    want("==", *s == *t, same)?;
                    want("== the other way", *t == *s, same)?;
                    want("!=", *s != *t, !same)?;
                    want("is_shape", s.is_shape(t), same)?;
                    want("equality of ids", s.id == t.id, same)?;
                    want("equality with the TypeId", s.id == b.id, same)?;
                    want("equality of ids made for the type", s.id == b.cid, same)?;
                    want("order of ids", s.id.cmp(&t.id) == a.id.cmp(&b.id), true)?;
                    want("partial order of ids", s.id.partial_cmp(&t.id) == a.id.partial_cmp(&b.id), true)?;
                    want("is_type", (b.is)(s), same)?;
                    if s.layout.size() <= 1024 && s.layout.align() <= 64 {
                        let p = unsafe { Peek::unchecked_new(facet_core::PtrConst::new(buf.0.as_ptr()), s) };
                        want("typed read", (b.reads)(p), same)?;
                    }
                    if same {
                        want("equality of the hashes of ids", hash(&s.id) == hash(&t.id) && hash(&s.id) == hash(&a.id), true)?;
                        want("equality of hashes", hash(s) == hash(t), true)?;
                    }
                    if *w == "itself" {
                        want("assert_type", (b.asserts)(s), same)?;
                        want("assert_shape", catching(|| s.assert_shape(t)).is_ok(), same)?;
                    }
                }
                ok_class((same as u64) << 20 | n)
            });
        }
    }
    for (i, a) in all.iter().enumerate() {
        for ttl in [-1isize, 0, 1, 2, 3, 4] {
            ctx.case("name", &|| format!("{} ({i}) to depth {ttl}", a.src), || {
                let exp = (a.name)(ttl);
                let got = shown(a.shape, Some(ttl));
                if got != exp {
                    return Err(format!("{got} instead of {exp}"));
                }
                if ttl == -1 && shown(a.shape, None) != exp {
                    return Err(format!("{} displayed instead of {exp}", shown(a.shape, None)));
                }
                if format!("{:?}", a.shape).is_empty() {
                    return Err("no debug text".into());
                }
                ok_class(fnv(exp.as_bytes()))
            });
        }
        ctx.case("scalar", &|| format!("{} ({i})", a.src), || {
            macro_rules! table { ($($t:ty => $s:ident),* $(,)?) => { [$( (TypeId::of::<$t>(), ScalarType::$s) ),*] } }
            let table = table!(() => Unit, bool => Bool, &'static str => Str, String => String, Cow<'static, str> => CowStr, f32 => F32, f64 => F64,
                u8 => U8, u16 => U16, u32 => U32, u64 => U64, usize => USize, i8 => I8, i16 => I16, i32 => I32, i64 => I64, isize => ISize,
                SocketAddr => SocketAddr, IpAddr => IpAddr, Ipv4Addr => Ipv4Addr, Ipv6Addr => Ipv6Addr, ConstTypeId => ConstTypeId);
            let exp = table.iter().find(|x| x.0 == a.id).map(|x| x.1);
            for (w, s) in &a.reached {
                let got = ScalarType::try_from_shape(s);
                if got != exp {
                    return Err(format!("{got:?} instead of {exp:?} as {w}"));
                }
            }
            ok_class(exp.map_or(0, |x| x as u64 + 1))
        });
    }
    for (s, n) in [(G::<u8>::SHAPE, "G<u8>"), (GE::<u8>::SHAPE, "GE<u8>"), (N::<1>::SHAPE, "N<1>")] {
        ctx.case("name of a generic derived type", &|| n.into(), || {
            let got = shown(s, None);
            if got == n { Ok(CaseOut::default()) } else { Err(format!("{got} instead of {n}")) }
        });
    }
    // lifetimes do not matter, as they do not for TypeId
    let owned = String::from("local");
    fn borrowed<'a>(s: &'a str, c: Cow<'a, str>, l: &'a [u8]) -> Result<u64, String> {
        let mut n = 0;
        let mut want = |what: &str, c: bool| if c { n += 1; Ok(()) } else { Err(what.to_string()) };
        want("&str", Peek::new(&s).shape() == <&'static str>::SHAPE && Peek::new(&s).get::<&str>().is_ok_and(|x| *x == s))?;
        want("Cow", Peek::new(&c).shape() == <Cow<'static, str>>::SHAPE && Peek::new(&c).get::<Cow<'_, str>>().is_ok())?;
        want("&[u8]", Peek::new(&l).shape() == <&'static [u8]>::SHAPE && Peek::new(&l).get::<&[u8]>().is_ok_and(|x| *x == l))?;
        Ok(n)
    }
    ctx.case("lifetimes", &|| "borrowed types".into(), || match borrowed(&owned, Cow::Borrowed(&owned), owned.as_bytes()) {
        Ok(n) => ok_class(n),
        Err(e) => Err(format!("{e} with another lifetime is another type")),
    });
}
