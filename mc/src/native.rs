//! Values as plain data (`Val`), native types made from and turned into them, and a description
//! (`Ty`) of each native type that is written down independently of facet's shapes.
use facet::Facet;
use facet_reflect::{HeapValue, Peek, PeekMap, ReflectError, Wip};
use std::any::TypeId;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    Unit,
    B(bool),
    I(i128),
    /// f64 bits
    F(u64),
    C(char),
    S(String),
    Struct(Vec<Val>),
    Enum(usize, Vec<Val>),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Map(BTreeMap<Val, Val>),
}

pub type TyFn = fn() -> &'static Ty;

#[derive(Clone)]
pub enum Kind {
    Leaf,
    Struct(Vec<(&'static str, TyFn)>),
    Enum(Vec<(&'static str, Vec<(&'static str, TyFn)>)>),
    Option(TyFn),
    List(TyFn),
    Map(TyFn, TyFn),
    /// built in one go, but made of other types
    Array(TyFn, usize),
    Pointer(TyFn),
}

type PutFn = for<'a> fn(Wip<'a>, &Val) -> Result<Wip<'a>, ReflectError>;

pub struct Ty {
    pub id: TypeId,
    pub name: String,
    pub shape: fn() -> &'static facet_core::Shape,
    pub size: usize,
    pub kind: Kind,
    pub put: PutFn,
    pub put_peek: PutFn,
    /// puts `PLACED` into a place, and notes in `MISPLACED` whether the place is aligned for the type
    pub place: facet_core::DefaultInPlaceFn,
    /// materialize as this type (None: wrong shape)
    pub materialize: for<'a> fn(HeapValue<'a>) -> Option<Val>,
    /// what parsing a text gives, for types implementing FromStr
    pub parse: Option<fn(&str) -> Option<Val>>,
    pub default: Option<fn() -> Val>,
    /// k-th distinct value
    pub gens: fn(u64, usize) -> Vec<Val>,
    /// for enums: discriminants of the variants
    pub discs: Vec<i128>,
    /// reads the value as this type (None: not of this type)
    pub get: for<'a, 'b> fn(&'b Peek<'a>) -> Option<Val>,
    /// makes the native value and passes a peek at it
    pub with_peek: fn(&Val, &mut dyn FnMut(Peek<'_>)),
    /// looks a key of this type up in a map
    pub lookup: for<'a> fn(&PeekMap<'a>, &Val) -> (bool, Option<Peek<'a>>),
}
thread_local! {
    pub static PLACED: std::cell::RefCell<Option<Val>> = const { std::cell::RefCell::new(None) };
    pub static MISPLACED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl PartialEq for Ty {
    fn eq(&self, o: &Ty) -> bool {
        self.id == o.id
    }
}

impl Ty {
    pub fn fields(&self, variant: Option<usize>) -> &[(&'static str, TyFn)] {
        match (&self.kind, variant) {
            (Kind::Struct(f), _) => f,
            (Kind::Enum(v), Some(i)) => &v[i].1,
            _ => &[],
        }
    }
    pub fn is_struct(&self) -> bool {
        matches!(self.kind, Kind::Struct(_))
    }
    pub fn is_enum(&self) -> bool {
        matches!(self.kind, Kind::Enum(_))
    }
    pub fn children(&self) -> Vec<TyFn> {
        match &self.kind {
            Kind::Leaf => vec![],
            Kind::Struct(f) => f.iter().map(|x| x.1).collect(),
            Kind::Enum(v) => v.iter().flat_map(|v| v.1.iter().map(|x| x.1)).collect(),
            Kind::Option(t) | Kind::List(t) | Kind::Array(t, _) | Kind::Pointer(t) => vec![*t],
            Kind::Map(k, v) => vec![*k, *v],
        }
    }
    /// All types reachable from this one, itself first.
    pub fn closure(&'static self) -> Vec<&'static Ty> {
        let mut out: Vec<&'static Ty> = vec![];
        let mut todo: Vec<&'static Ty> = vec![self];
        while let Some(t) = todo.pop() {
            if out.iter().any(|o| *o == t) {
                continue;
            }
            out.push(t);
            for c in t.children() {
                todo.push(c());
            }
        }
        out
    }
}

pub trait Native: Facet + Sized + 'static {
    fn make(v: &Val) -> Self;
    fn unmake(&self) -> Val;
    fn describe() -> Desc;
    fn ty() -> &'static Ty {
        static REG: Mutex<Option<HashMap<TypeId, &'static Ty>>> = Mutex::new(None);
        let id = TypeId::of::<Self>();
        crate::untracked(|| {
            if let Some(t) = REG.lock().unwrap().get_or_insert_with(Default::default).get(&id) {
                return *t;
            }
            let d = Self::describe();
            let t: &'static Ty = Box::leak(Box::new(Ty {
                id,
                name: d.name,
                shape: || Self::SHAPE,
                size: std::mem::size_of::<Self>(),
                kind: d.kind,
                put: |w, v| w.put(Self::make(v)),
                put_peek: |w, v| {
                    let x = Self::make(v);
                    // the value put is a clone: it must not depend on what it was cloned from
                    let borrowed: &'static Self = unsafe { &*(&x as *const Self) };
                    w.put_peek(facet_reflect::Peek::new(borrowed))
                },
                place: |p| {
                    if p.as_byte_ptr() as usize % std::mem::align_of::<Self>() != 0 {
                        MISPLACED.set(true);
                    }
                    let v = PLACED.take().unwrap();
                    let x = Self::make(&v);
                    crate::untracked(move || drop(v));
                    unsafe { p.put(x) }
                },
                materialize: |h| match h.materialize::<Self>() {
                    Ok(x) => {
                        let v = crate::untracked(|| x.unmake());
                        drop(x);
                        Some(v)
                    }
                    Err(_) => None,
                },
                parse: d.parse,
                default: d.default,
                gens: d.gens.unwrap_or(gens_of::<Self>),
                discs: d.discs,
                get: |p| p.get::<Self>().ok().map(|x| x.unmake()),
                with_peek: |v, f| {
                    let x = Self::make(v);
                    f(Peek::new(&x))
                },
                lookup: |m, v| {
                    let k = Self::make(v);
                    (m.contains_key(&k), m.get(&k))
                },
            }));
            REG.lock().unwrap().as_mut().unwrap().insert(id, t);
            t
        })
    }
}

pub struct Desc {
    pub name: String,
    pub kind: Kind,
    pub parse: Option<fn(&str) -> Option<Val>>,
    pub default: Option<fn() -> Val>,
    pub gens: Option<fn(u64, usize) -> Vec<Val>>,
    pub discs: Vec<i128>,
}
pub fn desc(name: impl Into<String>, kind: Kind) -> Desc {
    Desc { name: name.into(), kind, parse: None, default: None, gens: None, discs: vec![] }
}

/// The generated values number `k` of a type: one per variant/option case, at most `max`.
fn gens_of<T: Native>(k: u64, max: usize) -> Vec<Val> {
    gens_ty(T::ty(), k, max, 3)
}
fn first(t: TyFn, k: u64, fuel: u32) -> Option<Val> {
    if fuel == 0 {
        return None;
    }
    let t = t();
    match t.kind {
        Kind::Leaf | Kind::Array(..) | Kind::Pointer(_) => (t.gens)(k, 1).into_iter().next(),
        _ => gens_ty(t, k, 1, fuel - 1).into_iter().next(),
    }
}
pub fn gens_ty(t: &'static Ty, k: u64, max: usize, fuel: u32) -> Vec<Val> {
    let mut out = vec![];
    match &t.kind {
        Kind::Leaf | Kind::Array(..) | Kind::Pointer(_) => return (t.gens)(k, max),
        Kind::Struct(f) => {
            let fs: Option<Vec<Val>> =
                f.iter().enumerate().map(|(i, x)| first(x.1, k * 10 + i as u64, fuel)).collect();
            if let Some(fs) = fs {
                out.push(Val::Struct(fs));
            }
        }
        Kind::Enum(vs) => {
            // the last (usually biggest) variants first
            for (vi, v) in vs.iter().enumerate().rev() {
                let fs: Option<Vec<Val>> =
                    v.1.iter().enumerate().map(|(i, x)| first(x.1, k * 10 + i as u64, fuel)).collect();
                if let Some(fs) = fs {
                    out.push(Val::Enum(vi, fs));
                }
            }
        }
        Kind::Option(i) => {
            if let Some(v) = first(*i, k, fuel) {
                out.push(Val::Some(Box::new(v)));
            }
            out.push(Val::None);
        }
        Kind::List(i) => {
            if let Some(v) = first(*i, k, fuel) {
                out.push(Val::List(vec![v]));
            }
            out.push(Val::List(vec![]));
        }
        Kind::Map(kk, vv) => {
            if let (Some(a), Some(b)) = (first(*kk, k, fuel), first(*vv, k, fuel)) {
                out.push(Val::Map(BTreeMap::from([(a, b)])));
            }
            out.push(Val::Map(BTreeMap::new()));
        }
    }
    out.truncate(max);
    out
}

macro_rules! int_native {
    ($($t:ty),*) => { $(
        impl Native for $t {
            fn make(v: &Val) -> Self { match v { Val::I(i) => *i as $t, v => panic!("bad val {v:?}") } }
            fn unmake(&self) -> Val { Val::I(*self as i128) }
            fn describe() -> Desc {
                Desc {
                    parse: Some(|s| s.parse::<$t>().ok().map(|x| Val::I(x as i128))),
                    default: Some(|| Val::I(0)),
                    gens: Some(|k, _| vec![Val::I(((k + 1) as $t) as i128)]),
                    ..desc(stringify!($t), Kind::Leaf)
                }
            }
        }
    )* };
}
int_native!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize, u128, i128);

impl Native for bool {
    fn make(v: &Val) -> Self {
        matches!(v, Val::B(true))
    }
    fn unmake(&self) -> Val {
        Val::B(*self)
    }
    fn describe() -> Desc {
        Desc {
            parse: Some(|s| s.parse().ok().map(Val::B)),
            default: Some(|| Val::B(false)),
            gens: Some(|k, _| vec![Val::B(k % 2 == 0)]),
            ..desc("bool", Kind::Leaf)
        }
    }
}
impl Native for f64 {
    fn make(v: &Val) -> Self {
        match v {
            Val::F(b) => f64::from_bits(*b),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::F(self.to_bits())
    }
    fn describe() -> Desc {
        Desc {
            parse: Some(|s| s.parse::<f64>().ok().map(|x| Val::F(x.to_bits()))),
            default: Some(|| Val::F(0)),
            gens: Some(|k, _| vec![Val::F((k as f64 + 0.5).to_bits())]),
            ..desc("f64", Kind::Leaf)
        }
    }
}
impl Native for f32 {
    fn make(v: &Val) -> Self {
        match v {
            Val::F(b) => f64::from_bits(*b) as f32,
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::F((*self as f64).to_bits())
    }
    fn describe() -> Desc {
        Desc {
            parse: Some(|s| s.parse::<f32>().ok().map(|x| Val::F((x as f64).to_bits()))),
            default: Some(|| Val::F(0)),
            gens: Some(|k, _| vec![Val::F((k as f64 + 0.5).to_bits())]),
            ..desc("f32", Kind::Leaf)
        }
    }
}
impl Native for char {
    fn make(v: &Val) -> Self {
        match v {
            Val::C(b) => *b,
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::C(*self)
    }
    fn describe() -> Desc {
        Desc {
            parse: Some(|s| s.parse().ok().map(Val::C)),
            default: Some(|| Val::C('\0')),
            gens: Some(|k, _| vec![Val::C((b'a' + (k % 26) as u8) as char)]),
            ..desc("char", Kind::Leaf)
        }
    }
}
impl Native for String {
    fn make(v: &Val) -> Self {
        match v {
            Val::S(s) => s.clone(),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::S(self.clone())
    }
    fn describe() -> Desc {
        Desc {
            parse: Some(|s| Some(Val::S(s.to_string()))),
            default: Some(|| Val::S(String::new())),
            gens: Some(|k, _| vec![Val::S(format!("v{k}"))]),
            ..desc("String", Kind::Leaf)
        }
    }
}
impl Native for () {
    fn make(_: &Val) -> Self {}
    fn unmake(&self) -> Val {
        Val::Struct(vec![])
    }
    fn describe() -> Desc {
        Desc {
            default: Some(|| Val::Struct(vec![])),
            gens: Some(|_, _| vec![Val::Struct(vec![])]),
            ..desc("()", Kind::Leaf)
        }
    }
}
impl<T: Native> Native for Option<T> {
    fn make(v: &Val) -> Self {
        match v {
            Val::None => None,
            Val::Some(x) => Some(T::make(x)),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        match self {
            None => Val::None,
            Some(x) => Val::Some(Box::new(x.unmake())),
        }
    }
    fn describe() -> Desc {
        Desc {
            default: Some(|| Val::None),
            parse: Some(|s| T::ty().parse.and_then(|f| f(s)).map(|v| Val::Some(Box::new(v)))),
            ..desc(format!("Option<{}>", T::ty().name), Kind::Option(T::ty))
        }
    }
}
impl<T: Native> Native for Vec<T> {
    fn make(v: &Val) -> Self {
        match v {
            Val::List(x) => x.iter().map(T::make).collect(),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::List(self.iter().map(T::unmake).collect())
    }
    fn describe() -> Desc {
        // the element type might be recursive: don't ask for its name
        let n = std::any::type_name::<T>().rsplit("::").next().unwrap().to_string();
        Desc { default: Some(|| Val::List(vec![])), ..desc(format!("Vec<{n}>"), Kind::List(T::ty)) }
    }
}
impl<K: Native + Eq + std::hash::Hash, V: Native> Native for HashMap<K, V> {
    fn make(v: &Val) -> Self {
        match v {
            Val::Map(x) => x.iter().map(|(k, v)| (K::make(k), V::make(v))).collect(),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.unmake(), v.unmake())).collect())
    }
    fn describe() -> Desc {
        Desc {
            default: Some(|| Val::Map(Default::default())),
            ..desc(format!("HashMap<{},{}>", K::ty().name, V::ty().name), Kind::Map(K::ty, V::ty))
        }
    }
}
impl<K: Native + Ord, V: Native> Native for BTreeMap<K, V> {
    fn make(v: &Val) -> Self {
        match v {
            Val::Map(x) => x.iter().map(|(k, v)| (K::make(k), V::make(v))).collect(),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.unmake(), v.unmake())).collect())
    }
    fn describe() -> Desc {
        Desc {
            default: Some(|| Val::Map(Default::default())),
            ..desc(format!("BTreeMap<{},{}>", K::ty().name, V::ty().name), Kind::Map(K::ty, V::ty))
        }
    }
}
impl<T: Native, const N: usize> Native for [T; N] {
    fn make(v: &Val) -> Self {
        match v {
            Val::List(x) => std::array::from_fn(|i| T::make(&x[i])),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::List(self.iter().map(T::unmake).collect())
    }
    fn describe() -> Desc {
        Desc {
            gens: Some(|k, _| {
                vec![Val::List((0..N).map(|i| (T::ty().gens)(k * N as u64 + i as u64, 1).remove(0)).collect())]
            }),
            default: if T::ty().default.is_some() {
                Some(|| {
                    let d = T::ty().default.unwrap();
                    Val::List((0..N).map(|_| d()).collect())
                })
            } else {
                None
            },
            ..desc(format!("[{};{N}]", T::ty().name), Kind::Array(T::ty, N))
        }
    }
}
impl<T: Native> Native for Arc<T> {
    fn make(v: &Val) -> Self {
        Arc::new(T::make(v))
    }
    fn unmake(&self) -> Val {
        T::unmake(self)
    }
    fn describe() -> Desc {
        Desc {
            gens: Some(|k, m| (T::ty().gens)(k, m)),
            default: T::ty().default,
            ..desc(format!("Arc<{}>", T::ty().name), Kind::Pointer(T::ty))
        }
    }
}
macro_rules! tuple_native {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Native),*> Native for ($($t,)*) {
            fn make(v: &Val) -> Self {
                match v {
                    Val::Struct(x) => ($($t::make(&x[$i]),)*),
                    v => panic!("bad val {v:?}"),
                }
            }
            fn unmake(&self) -> Val {
                Val::Struct(vec![$(self.$i.unmake()),*])
            }
            fn describe() -> Desc {
                Desc {
                    default: if $($t::ty().default.is_some())&&* {
                        Some(|| Val::Struct(vec![$($t::ty().default.unwrap()()),*]))
                    } else {
                        None
                    },
                    ..desc(
                        [$($t::ty().name.clone()),*].join(",") + "-tuple",
                        Kind::Struct(vec![$((stringify!($i), $t::ty)),*]),
                    )
                }
            }
        }
    };
}
tuple_native!(A 0);
tuple_native!(A 0, B 1);
tuple_native!(A 0, B 1, C 2);
tuple_native!(A 0, B 1, C 2, D 3);
tuple_native!(A 0, B 1, C 2, D 3, E 4);
tuple_native!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple_native!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple_native!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple_native!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple_native!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple_native!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple_native!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

/// `native_struct!{ #[attrs] Name { field: Type, ... } default }`
#[macro_export]
macro_rules! native_struct {
    ($(#[$($a:tt)*])* $n:ident { $( $(#[$($fa:tt)*])* $f:ident : $t:ty ),* $(,)? } $($def:ident)?) => {
        #[derive(facet::Facet, Debug, Clone, PartialEq)]
        $(#[$($a)*])*
        pub struct $n { $( $(#[$($fa)*])* pub $f: $t ),* }
        impl $crate::native::Native for $n {
            #[allow(unused_mut, unused_variables)]
            fn make(v: &$crate::native::Val) -> Self {
                let $crate::native::Val::Struct(f) = v else { panic!("bad val {v:?}") };
                let mut it = f.iter();
                $n { $( $f: <$t as $crate::native::Native>::make(it.next().unwrap()) ),* }
            }
            fn unmake(&self) -> $crate::native::Val {
                $crate::native::Val::Struct(vec![ $( <$t as $crate::native::Native>::unmake(&self.$f) ),* ])
            }
            fn describe() -> $crate::native::Desc {
                #[allow(unused_mut)]
                let mut d = $crate::native::desc(stringify!($n), $crate::native::Kind::Struct(vec![
                    $( (stringify!($f), <$t as $crate::native::Native>::ty as $crate::native::TyFn) ),*
                ]));
                $( let _ = stringify!($def); d.default = Some(|| <$n as $crate::native::Native>::unmake(&<$n as Default>::default())); )?
                d
            }
        }
    };
}
/// tuple struct
#[macro_export]
macro_rules! native_tuple_struct {
    ($(#[$($a:tt)*])* $n:ident ( $( $i:tt : $t:ty ),* )) => {
        #[derive(facet::Facet, Debug, Clone, PartialEq)]
        $(#[$($a)*])*
        pub struct $n ( $( pub $t ),* );
        impl $crate::native::Native for $n {
            #[allow(unused_mut, unused_variables)]
            fn make(v: &$crate::native::Val) -> Self {
                let $crate::native::Val::Struct(f) = v else { panic!("bad val {v:?}") };
                $n ( $( <$t as $crate::native::Native>::make(&f[$i]) ),* )
            }
            fn unmake(&self) -> $crate::native::Val {
                $crate::native::Val::Struct(vec![ $( <$t as $crate::native::Native>::unmake(&self.$i) ),* ])
            }
            fn describe() -> $crate::native::Desc {
                $crate::native::desc(stringify!($n), $crate::native::Kind::Struct(vec![
                    $( (stringify!($i), <$t as $crate::native::Native>::ty as $crate::native::TyFn) ),*
                ]))
            }
        }
    };
}
/// `native_enum!{ #[repr(u8)] Name { A, B(_0: T), C { x: T } } }`
#[macro_export]
macro_rules! native_enum {
    ($(#[$($a:tt)*])* $n:ident { $( $(#[$($va:tt)*])* $vn:ident $( ( $( $(#[$($tia:tt)*])* $ti:ident : $tt:ty ),* ) )? $( { $( $(#[$($fia:tt)*])* $fi:ident : $ft:ty ),* } )? $(= $disc:tt)? ),* $(,)? }) => {
        #[derive(facet::Facet, Debug, Clone, PartialEq)]
        $(#[$($a)*])*
        pub enum $n { $( $(#[$($va)*])* $vn $( ( $($(#[$($tia)*])* $tt),* ) )? $( { $($(#[$($fia)*])* $fi : $ft),* } )? $(= $disc)? ),* }
        impl $crate::native::Native for $n {
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn make(v: &$crate::native::Val) -> Self {
                let $crate::native::Val::Enum(i, f) = v else { panic!("bad val {v:?}") };
                let mut it = f.iter();
                let names = [ $( stringify!($vn) ),* ];
                $( if names[*i] == stringify!($vn) {
                    return $n::$vn
                        $( ( $( { let _ = stringify!($ti); <$tt as $crate::native::Native>::make(it.next().unwrap()) } ),* ) )?
                        $( { $( $fi: <$ft as $crate::native::Native>::make(it.next().unwrap()) ),* } )?;
                } )*
                unreachable!()
            }
            fn unmake(&self) -> $crate::native::Val {
                let names = [ $( stringify!($vn) ),* ];
                let idx = |s: &str| names.iter().position(|x| *x == s).unwrap();
                match self {
                    $( $n::$vn $( ( $($ti),* ) )? $( { $($fi),* } )? => $crate::native::Val::Enum(
                        idx(stringify!($vn)),
                        vec![ $( $( $crate::native::Native::unmake($ti) ),* )? $( $( $crate::native::Native::unmake($fi) ),* )? ],
                    ) ),*
                }
            }
            #[allow(unused_assignments)]
            fn describe() -> $crate::native::Desc {
                let mut next = 0i128;
                let mut discs = vec![];
                $( $( next = $disc as i128; )? let _ = stringify!($vn); discs.push(next); next += 1; )*
                let mut d = $crate::native::desc(stringify!($n), $crate::native::Kind::Enum(vec![
                    $( (stringify!($vn), vec![
                        $( $( (stringify!($ti), <$tt as $crate::native::Native>::ty as $crate::native::TyFn) ),* )?
                        $( $( (stringify!($fi), <$ft as $crate::native::Native>::ty as $crate::native::TyFn) ),* )?
                    ]) ),*
                ]));
                d.discs = discs;
                d
            }
        }
    };
}
