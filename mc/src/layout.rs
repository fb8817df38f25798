//! What the programs generated by C03 call: compares a derived shape with the type it describes.
use facet::{Def, EnumRepr, Facet, StructKind};
use facet_reflect::{Peek, Wip};
use std::fmt::Debug;

pub type R = Result<u64, String>;

macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// values of field types; different for different k
pub trait G: Facet + Clone + PartialEq + Debug + 'static {
    fn g(k: u64) -> Self;
}
macro_rules! g_int { ($($t:ty),*) => { $( impl G for $t { fn g(k: u64) -> Self { (k.wrapping_mul(0x0123_4567_89ab_cdef).wrapping_add(k)) as $t } } )* } }
g_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl G for String {
    fn g(k: u64) -> Self {
        format!("s{k}")
    }
}
impl G for bool {
    fn g(k: u64) -> Self {
        k % 2 == 1
    }
}
impl G for char {
    fn g(k: u64) -> Self {
        char::from_u32(0x100 + k as u32).unwrap()
    }
}
impl G for f64 {
    fn g(k: u64) -> Self {
        k as f64 + 0.25
    }
}
impl G for () {
    fn g(_: u64) -> Self {}
}
impl G for &'static str {
    fn g(k: u64) -> Self {
        ["zero", "one", "two", "three"][k as usize % 4]
    }
}
impl<T: G> G for Option<T> {
    fn g(k: u64) -> Self {
        (k % 3 != 2).then(|| T::g(k))
    }
}
impl<T: G> G for Vec<T> {
    fn g(k: u64) -> Self {
        (0..k % 3).map(|i| T::g(k * 3 + i)).collect()
    }
}
impl<T: G, const N: usize> G for [T; N] {
    fn g(k: u64) -> Self {
        std::array::from_fn(|i| T::g(k * 5 + i as u64))
    }
}
impl<A: G, B: G> G for (A, B) {
    fn g(k: u64) -> Self {
        (A::g(k * 2), B::g(k * 2 + 1))
    }
}
impl<K: G + Eq + std::hash::Hash, V: G> G for std::collections::HashMap<K, V> {
    fn g(k: u64) -> Self {
        (0..k % 3).map(|i| (K::g(k * 3 + i), V::g(k + i))).collect()
    }
}
impl<T: G> G for std::sync::Arc<T> {
    fn g(k: u64) -> Self {
        std::sync::Arc::new(T::g(k))
    }
}

pub struct Fd {
    pub name: &'static str,
    pub offset: usize,
    shape: &'static facet::Shape,
    same: fn(&Peek<'_>, *const u8) -> Result<(), String>,
    put: for<'a> fn(Wip<'a>, *const u8) -> Result<Wip<'a>, facet_reflect::ReflectError>,
}
pub fn fd<F: G>(name: &'static str, offset: usize) -> Fd {
    Fd {
        name,
        offset,
        shape: F::SHAPE,
        same: |p, a| match p.get::<F>() {
            Err(_) => Err("has another type".into()),
            Ok(x) if x as *const F as *const u8 != a => Err("is read from elsewhere".into()),
            Ok(x) if x != unsafe { &*(a as *const F) } => Err("is another value".into()),
            Ok(_) => Ok(()),
        },
        put: |w, a| w.put(unsafe { (*(a as *const F)).clone() }),
    }
}
/// a field whose offset is measured on a value
pub fn fv<F: G, X>(name: &'static str, x: &X, f: &F) -> Fd {
    fd::<F>(name, f as *const F as usize - x as *const X as usize)
}

fn check_fields<X: 'static>(
    what: &str,
    fields: &'static [facet::Field],
    exp: &[Fd],
    x: &X,
    get: &dyn Fn(usize) -> Result<Peek<'static>, String>,
) -> R {
    want!(fields.len() == exp.len(), "{what}: {} fields instead of {}", fields.len(), exp.len());
    let mut n = 0;
    for (i, (f, e)) in fields.iter().zip(exp).enumerate() {
        want!(f.name == e.name, "{what}: field {i} is called {} instead of {}", f.name, e.name);
        want!(f.offset == e.offset, "{what}.{}: offset {} instead of {}", f.name, f.offset, e.offset);
        want!(f.shape() == e.shape, "{what}.{}: described as {} instead of {}", f.name, f.shape(), e.shape);
        let p = get(i)?;
        (e.same)(&p, (x as *const X as usize + e.offset) as *const u8).map_err(|m| format!("{what}.{}: {m}", f.name))?;
        n += 4;
    }
    Ok(n)
}
fn common<X: Facet + 'static>(name: &str) -> R {
    let s = X::SHAPE;
    want!(s.layout == std::alloc::Layout::new::<X>(), "layout {:?} instead of {:?}", s.layout, std::alloc::Layout::new::<X>());
    want!(s.is_type::<X>(), "is_type is false");
    let shown = format!("{s}");
    want!(shown == name || shown.starts_with(&format!("{name}<")), "called {shown} instead of {name}");
    Ok(3)
}
/// the order of setting the fields does not matter
fn orders(n: usize) -> Vec<Vec<usize>> {
    let f: Vec<usize> = (0..n).collect();
    let r: Vec<usize> = (0..n).rev().collect();
    if n < 2 { vec![f] } else { vec![f, r] }
}

pub fn struct_<X: Facet + PartialEq + Debug + 'static>(
    name: &'static str,
    kind: StructKind,
    params: &[(&str, &'static facet::Shape)],
    make: &dyn Fn(u64) -> X,
    exp: &[Fd],
) -> R {
    let mut n = common::<X>(name)?;
    type_params::<X>(params)?;
    let Def::Struct(d) = X::SHAPE.def else { return Err("not described as a struct".into()) };
    want!(d.kind == kind, "kind {:?} instead of {kind:?}", d.kind);
    for k in 0..4 {
        let x = make(k);
        let xs: &'static X = unsafe { &*(&x as *const X) };
        let ps = Peek::new(xs).into_struct().map_err(|e| e.to_string())?;
        n += check_fields(name, d.fields, exp, &x, &|i| ps.field(i).map_err(|e| e.to_string()))?;
        if k % 2 == 1 {
            for order in orders(exp.len()) {
                let r = (|| {
                    let mut w = Wip::alloc::<X>();
                    for i in &order {
                        w = w.field(*i)?;
                        w = (exp[*i].put)(w, (&x as *const X as usize + exp[*i].offset) as *const u8)?;
                        w = w.pop()?;
                    }
                    w.build()?.materialize::<X>()
                })();
                let built = r.map_err(|e: facet_reflect::ReflectError| format!("building: {e}"))?;
                want!(built == x, "built {built:?} instead of {x:?}");
                n += 1;
            }
        }
    }
    Ok(n)
}
fn type_params<X: Facet>(params: &[(&str, &'static facet::Shape)]) -> R {
    let got = X::SHAPE.type_params;
    want!(got.len() == params.len(), "{} type parameters instead of {}", got.len(), params.len());
    for (g, (n, s)) in got.iter().zip(params) {
        want!(g.name == *n, "type parameter {} instead of {n}", g.name);
        want!((g.shape)() == *s, "type parameter {n} is {} instead of {s}", (g.shape)());
    }
    Ok(1)
}

pub struct Vd<X: 'static> {
    pub name: &'static str,
    pub kind: StructKind,
    pub disc: i128,
    pub make: fn(u64) -> X,
    pub fields: fn(&X) -> Option<Vec<Fd>>,
}
pub fn repr_size(r: EnumRepr) -> usize {
    match r {
        EnumRepr::U8 | EnumRepr::I8 => 1,
        EnumRepr::U16 | EnumRepr::I16 => 2,
        EnumRepr::U32 | EnumRepr::I32 => 4,
        EnumRepr::U64 | EnumRepr::I64 => 8,
        EnumRepr::USize | EnumRepr::ISize => size_of::<usize>(),
        _ => 0,
    }
}
/// `repr`: the exact representation, or the size of the tag
pub fn enum_<X: Facet + PartialEq + Debug + 'static>(
    name: &'static str,
    repr: Result<EnumRepr, usize>,
    params: &[(&str, &'static facet::Shape)],
    vars: &[Vd<X>],
) -> R {
    let mut n = common::<X>(name)?;
    type_params::<X>(params)?;
    let Def::Enum(d) = X::SHAPE.def else { return Err("not described as an enum".into()) };
    match repr {
        Ok(r) => want!(d.repr == r, "representation {:?} instead of {r:?}", d.repr),
        Err(size) => want!(repr_size(d.repr) == size, "representation {:?}, but the tag has {size} bytes", d.repr),
    }
    want!(d.variants.len() == vars.len(), "{} variants instead of {}", d.variants.len(), vars.len());
    for (i, v) in vars.iter().enumerate() {
        let got = &d.variants[i];
        want!(got.name == v.name, "variant {i} is called {} instead of {}", got.name, v.name);
        want!(got.discriminant as i128 == v.disc, "{}: discriminant {} instead of {}", v.name, got.discriminant, v.disc);
        want!(got.data.kind == v.kind, "{}: kind {:?} instead of {:?}", v.name, got.data.kind, v.kind);
        for k in 0..4 {
            let x = (v.make)(k);
            let xs: &'static X = unsafe { &*(&x as *const X) };
            let exp = (v.fields)(&x).expect("generated program");
            let pe = Peek::new(xs).into_enum().map_err(|e| e.to_string())?;
            want!(pe.variant_index() == i, "{}: read as variant {}", v.name, pe.variant_index());
            want!(pe.discriminant() as i128 == v.disc, "{}: discriminant read as {}", v.name, pe.discriminant());
            n += 5 + check_fields(v.name, got.data.fields, &exp, &x, &|i| pe.field(i).ok_or("missing".into()))?;
            if k % 2 == 1 {
                for order in orders(exp.len()) {
                    let r = (|| {
                        let mut w = Wip::alloc::<X>();
                        w = w.variant(i)?;
                        for i in &order {
                            w = w.field(*i)?;
                            w = (exp[*i].put)(w, (&x as *const X as usize + exp[*i].offset) as *const u8)?;
                            w = w.pop()?;
                        }
                        w.build()?.materialize::<X>()
                    })();
                    let built = r.map_err(|e: facet_reflect::ReflectError| format!("building: {e}"))?;
                    want!(built == x, "built {built:?} instead of {x:?}");
                    n += 1;
                }
            }
        }
    }
    Ok(n)
}

/// main of a generated program: `--from N` skips the first N checks
pub fn run_all(checks: &[(usize, fn() -> R)]) {
    let from: usize = std::env::args().nth(1).map(|x| x.parse().unwrap()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    for (id, f) in &checks[from..] {
        println!("{id}\tSTART\t");
        match std::panic::catch_unwind(f) {
            Ok(Ok(n)) => println!("{id}\tOK\t{n}"),
            Ok(Err(m)) => println!("{id}\tERR\t{}", m.replace(['\n', '\t'], " ")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("{id}\tERR\tpanic: {}", m.replace(['\n', '\t'], " "))
            }
        }
    }
}
