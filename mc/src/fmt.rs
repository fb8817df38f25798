//! Types the format checks read and write, and what is said on their fields.
use crate::json::Attrs;
use crate::native::*;
use crate::universe::*;
use crate::{native_enum, native_struct, native_tuple_struct};
use std::collections::{BTreeMap, HashMap};
use std::num::NonZero;

macro_rules! nz_native {
    ($($t:ty),*) => { $(
        impl Native for NonZero<$t> {
            fn make(v: &Val) -> Self { match v { Val::I(i) => NonZero::new(*i as $t).unwrap(), v => panic!("bad val {v:?}") } }
            fn unmake(&self) -> Val { Val::I(self.get() as i128) }
            fn describe() -> Desc {
                Desc {
                    parse: Some(|s| s.parse::<NonZero<$t>>().ok().map(|x| Val::I(x.get() as i128))),
                    gens: Some(|k, _| vec![Val::I(((k + 1) as $t) as i128)]),
                    ..desc(concat!("NonZero<", stringify!($t), ">"), Kind::Leaf)
                }
            }
        }
    )* };
}
nz_native!(u8, u16, u32, u64, i8, i16, i32, i64, usize, isize);
impl Native for &'static str {
    fn make(v: &Val) -> Self {
        match v {
            Val::S(s) => crate::untracked(|| &*Box::leak(s.clone().into_boxed_str())),
            v => panic!("bad val {v:?}"),
        }
    }
    fn unmake(&self) -> Val {
        Val::S(self.to_string())
    }
    fn describe() -> Desc {
        Desc { gens: Some(|k, _| vec![Val::S(format!("r{k}"))]), ..desc("&str", Kind::Leaf) }
    }
}
impl Native for std::borrow::Cow<'static, str> {
    fn make(v: &Val) -> Self {
        String::make(v).into()
    }
    fn unmake(&self) -> Val {
        Val::S(self.to_string())
    }
    fn describe() -> Desc {
        Desc { gens: Some(|k, _| vec![Val::S(format!("c{k}"))]), ..desc("Cow<str>", Kind::Leaf) }
    }
}

native_struct!(Ints { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: usize, j: isize });
native_struct!(Nzs { a: NonZero<u8>, b: NonZero<u16>, c: NonZero<u32>, d: NonZero<u64>, e: NonZero<i8>, f: NonZero<i16>, g: NonZero<i32>, h: NonZero<i64>, i: NonZero<usize>, j: NonZero<isize> });
native_struct!(Flt { a: f32, b: f64, c: bool });
native_struct!(Ren {
    #[facet(rename = "b")] a: u32,
    #[facet(rename = "x\"\\\n")] b: String,
    #[facet(sensitive)] c: Option<bool>,
});
native_struct!(Def {
    #[facet(default)] a: u32,
    #[facet(default = "mk_s")] b: String,
    c: bool,
    #[facet(default)] d: Option<u8>,
    #[facet(rename = "ee")] #[facet(default)] e: Vec<u8>,
});
native_struct!(#[facet(deny_unknown_fields)] Deny { a: u8, #[facet(rename = "z")] b: Option<u8> });
native_struct!(#[facet(default)] CDef { a: u32, b: String, v: Vec<u8>, o: Option<bool> });
native_struct!(#[facet(deny_unknown_fields)] #[facet(default)] CDeny { a: u8, b: String });
native_struct!(Nest { p: Deny, q: CDef, r: Vec<Def>, s: Option<Deny> });
native_struct!(Wrap { x: CDef, y: CDeny, #[facet(rename = "x x")] z: Ren, w: Deny });
native_struct!(Wraps { a: Vec<CDeny>, b: Option<Def>, c: Vec<Option<Deny>>, d: Wrap1 });
native_struct!(#[facet(deny_unknown_fields)] Wrap1 { a: Two, b: Option<Wrap2> });
native_struct!(Wrap2 { a: u8, b: Deny });
native_struct!(One { a: u32 });
native_struct!(Two { a: u32, b: String });
native_struct!(ListS { a: Vec<u32>, b: Option<Vec<Option<bool>>> });
native_struct!(Chain { v: u8, next: Vec<Chain> });
native_tuple_struct!(Tup(0: u8, 1: String));
native_enum!(#[repr(u8)] JE {
    A, B(_0: u32), C(_0: String, _1: Option<u8>), D { d: u8 }, E { #[facet(rename = "y y")] x: String, y: Vec<u8> }, F(_0: S2), G { s: Option<Deny>, #[facet(rename = "x")] t: bool },
});
// as wide as they get
native_tuple_struct!(Tup12(0: u8, 1: String, 2: u16, 3: bool, 4: Option<u8>, 5: i8, 6: u64, 7: Vec<u8>, 8: String, 9: u8, 10: i64, 11: String));
native_struct!(Wide { a: WideE, b: Vec<WideE>, c: Option<Tup12> });
native_enum!(#[repr(u8)] WideE {
    T(_0: u8, _1: String, _2: u16, _3: bool, _4: Option<u8>, _5: i8, _6: u64, _7: Vec<u8>, _8: String, _9: u8, _10: i64, _11: String),
    S { a: u8, b: String, c: u16, d: bool, e: Option<u8>, f: i8, g: u64, h: Vec<u8>, i: String, #[facet(rename = "jj")] j: u8, k: i64, l: String },
    V2, V3, V4, V5, V6, V7, V8(_0: u8), V9, V10, V11, V12, V13, V14, V15 { a: u8 }, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32(_0: String), V33,
    V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 { x: String }, V64, V65, V66(_0: u8, _1: u8), V67,
});
native_struct!(DefWide { #[facet(default)] f0: String, #[facet(default)] f1: u8, #[facet(default)] f2: u8, #[facet(default)] f3: String, #[facet(default)] f4: u8, #[facet(default)] f5: u8, #[facet(default)] f6: String, #[facet(default)] f7: u8, #[facet(default)] f8: u8, #[facet(default)] f9: String, #[facet(default)] f10: u8, #[facet(default)] f11: u8, #[facet(default)] f12: String, #[facet(default)] f13: u8, #[facet(default)] f14: u8, #[facet(default)] f15: String, #[facet(default)] f16: u8, #[facet(default)] f17: u8, #[facet(default)] f18: String, #[facet(default)] f19: u8, #[facet(default)] f20: u8, #[facet(default)] f21: String, #[facet(default)] f22: u8, #[facet(default)] f23: u8, #[facet(default)] f24: String, #[facet(default)] f25: u8, #[facet(default)] f26: u8, #[facet(default)] f27: String, #[facet(default)] f28: u8, #[facet(default)] f29: u8, #[facet(default)] f30: String, #[facet(default)] f31: u8, #[facet(default)] f32: u8, #[facet(default)] f33: String, #[facet(default)] f34: u8, #[facet(default)] f35: u8, #[facet(default)] f36: String, #[facet(default)] f37: u8, #[facet(default)] f38: u8, #[facet(default)] f39: String, #[facet(default)] f40: u8, #[facet(default)] f41: u8, #[facet(default)] f42: String, #[facet(default)] f43: u8, #[facet(default)] f44: u8, #[facet(default)] f45: String, #[facet(default)] f46: u8, #[facet(default)] f47: u8, #[facet(default)] f48: String, #[facet(default)] f49: u8, #[facet(default)] f50: u8, #[facet(default)] f51: String, #[facet(default)] f52: u8, #[facet(default)] f53: u8, #[facet(default)] f54: String, #[facet(default)] f55: u8, #[facet(default)] f56: u8, #[facet(default)] f57: String, #[facet(default)] f58: u8, #[facet(default)] f59: u8, #[facet(default)] f60: String, #[facet(default)] f61: u8, #[facet(default)] f62: u8, #[facet(default = "mk_s")] f63: String });
pub fn mk_s() -> String {
    "made".into()
}
impl Default for CDef {
    fn default() -> Self {
        CDef { a: 7, b: "cd".into(), v: vec![1, 2], o: Some(true) }
    }
}
impl Default for CDeny {
    fn default() -> Self {
        CDeny { a: 9, b: "x".into() }
    }
}

pub fn attrs(t: &Ty) -> Attrs {
    let s = |x: &str| Val::S(x.into());
    match t.name.as_str() {
        "Ren" => Attrs { renames: vec![("a", "b"), ("b", "x\"\\\n")], sensitive: vec!["c"], ..Default::default() },
        "Def" => Attrs {
            renames: vec![("e", "ee")],
            defaults: vec![("a", Val::I(0)), ("b", s("made")), ("d", Val::None), ("e", Val::List(vec![]))],
            ..Default::default()
        },
        "DefWide" => Attrs {
            defaults: t.fields(None).iter().map(|f| (f.0, if f.0 == "f63" { s("made") } else if f.1().name == "u8" { Val::I(0) } else { s("") })).collect(),
            ..Default::default()
        },
        "Wrap" => Attrs { renames: vec![("z", "x x")], ..Default::default() },
        "Wrap1" => Attrs { deny: true, ..Default::default() },
        "WideE" => Attrs { renames: vec![("j", "jj")], ..Default::default() },
        "Deny" => Attrs { deny: true, renames: vec![("b", "z")], ..Default::default() },
        "CDef" => Attrs { default: Some(CDef::default().unmake()), ..Default::default() },
        "CDeny" => Attrs { deny: true, default: Some(CDeny::default().unmake()), ..Default::default() },
        "JE" => Attrs { renames: vec![("x", "y y"), ("t", "x")], ..Default::default() },
        _ => Attrs::default(),
    }
}

/// types that JSON can be written from and read into
pub fn both_ways() -> Vec<&'static Ty> {
    vec![
        bool::ty(), u8::ty(), u16::ty(), u32::ty(), u64::ty(), i8::ty(), i16::ty(), i32::ty(), i64::ty(), usize::ty(), isize::ty(),
        f32::ty(), f64::ty(), String::ty(), <NonZero<u8>>::ty(), <NonZero<i64>>::ty(), <NonZero<usize>>::ty(),
        S2::ty(), SD::ty(), N2::ty(), Deep::ty(), UnitLike::ty(), T2::ty(), Tup::ty(), Tree::ty(), Big::ty(), Chain::ty(),
        Ints::ty(), Nzs::ty(), Flt::ty(), Ren::ty(), Def::ty(), Deny::ty(), CDef::ty(), CDeny::ty(), Nest::ty(), Wrap::ty(), Wraps::ty(), Wrap1::ty(), One::ty(), Two::ty(), ListS::ty(),
        <Vec<u8>>::ty(), <Vec<String>>::ty(), <Vec<Vec<u16>>>::ty(), <Vec<Option<bool>>>::ty(), <Vec<S2>>::ty(), <Vec<Def>>::ty(), <Vec<f64>>::ty(), <Vec<f32>>::ty(),
        DefWide::ty(), Tup12::ty(), <(u8, String, u16, bool, Option<u8>, i8, u64, Vec<u8>, String, u8, i64, String)>::ty(), <Vec<(u8, u8, u8, u8, u8, u8, u8, u8, u8, String)>>::ty(),
        <Option<u8>>::ty(), <Option<String>>::ty(), <Option<S2>>::ty(), <Option<Vec<u8>>>::ty(), <Option<Vec<Option<S2>>>>::ty(), <(u8, String)>::ty(), <((u8, bool), Vec<(i8, u8)>)>::ty(),
    ]
}
/// types that can only be written
pub fn written() -> Vec<&'static Ty> {
    let mut v = both_ways();
    for t in roots() {
        if !v.contains(&t) {
            v.push(t)
        }
    }
    v.extend([
        JE::ty(), <Vec<JE>>::ty(), <Option<JE>>::ty(), <HashMap<String, JE>>::ty(), <Vec<Ren>>::ty(), <HashMap<String, Ren>>::ty(), <Vec<Nest>>::ty(),
        WideE::ty(), Wide::ty(), <HashMap<String, WideE>>::ty(), <[u8; 32]>::ty(),
        <HashMap<u8, u8>>::ty(), <HashMap<i64, String>>::ty(), <HashMap<bool, bool>>::ty(), <BTreeMap<char, u8>>::ty(), <BTreeMap<String, f64>>::ty(), <BTreeMap<u16, Option<u8>>>::ty(),
        <HashMap<&'static str, &'static str>>::ty(), <BTreeMap<std::borrow::Cow<'static, str>, u8>>::ty(), <&'static str>::ty(), <std::borrow::Cow<'static, str>>::ty(),
        <Vec<&'static str>>::ty(), <HashMap<String, HashMap<String, String>>>::ty(), <HashMap<String, Vec<Option<u8>>>>::ty(),
        <BTreeMap<Option<u8>, u8>>::ty(), <BTreeMap<Vec<u8>, u8>>::ty(), <BTreeMap<(u8, u8), u8>>::ty(), <BTreeMap<(), u8>>::ty(),
        u128::ty(), i128::ty(), char::ty(), <()>::ty(), <Vec<u128>>::ty(), <Vec<()>>::ty(), <[u8; 2]>::ty(), <std::sync::Arc<u8>>::ty(), <Option<()>>::ty(), <Vec<char>>::ty(),
        <HashMap<String, ()>>::ty(),
    ]);
    v
}

/// What reading gave.
pub enum Read {
    Val(Val),
    Refused,
}
/// Reads JSON; a panic, a leak, or an error that can't be displayed is an Err.
pub fn read_json(t: &'static Ty, input: &[u8], display: bool) -> Result<Read, String> {
    crate::at(input);
    let mut out: Result<Read, String> = Ok(Read::Refused);
    let (_, rep) = crate::tracked(|| {
        let r = crate::catching(|| match facet_json::from_slice_wip(facet_reflect::Wip::alloc_shape((t.shape)()), input) {
            Ok(h) => (t.materialize)(h),
            Err(e) => {
                if display {
                    let text = format!("{e}");
                    let dbg = format!("{e:?}");
                    crate::untracked(|| {
                        if let Err(m) = inside(&text, input) {
                            out = Err(m);
                        } else if dbg.is_empty() || e.message().is_empty() {
                            out = Err("empty error message".into());
                        }
                    });
                }
                None
            }
        });
        match r {
            Ok(Some(v)) => out = crate::untracked(|| Ok(Read::Val(v.clone()))),
            Ok(None) => {}
            Err(m) => out = crate::untracked(|| Err(format!("panic: {m}"))),
        }
    });
    if !rep.clean() {
        return Err(format!("memory: {}", rep.describe()));
    }
    out
}
/// Whether the place an error shows (`json:line:column`) is within the input, or just behind it.
fn inside(text: &str, input: &[u8]) -> Result<(), String> {
    if text.is_empty() {
        return Err("empty error".into());
    }
    let mut plain = String::new();
    let mut esc = false;
    for c in text.chars() {
        match c {
            '\x1b' => esc = true,
            'm' if esc => esc = false,
            c if !esc => plain.push(c),
            _ => {}
        }
    }
    let Ok(s) = std::str::from_utf8(input) else { return Ok(()) };
    let Some(at) = plain.find("json:") else { return Err(format!("error without a place: {plain}")) };
    let place: String = plain[at + 5..].chars().take_while(|c| c.is_ascii_digit() || *c == ':').collect();
    let mut it = place.split(':').map(|x| x.parse::<usize>());
    let (Some(Ok(line)), Some(Ok(col))) = (it.next(), it.next()) else { return Err(format!("error at {place:?}: {plain}")) };
    // how lines are told apart, and wide characters counted, is the renderer's business
    let lines = 1 + s.chars().filter(|c| ['\n', '\r', '\x0b', '\x0c', '\u{85}', '\u{2028}', '\u{2029}'].contains(c)).count();
    if line == 0 || line > lines || col == 0 || col > s.chars().count() + 2 {
        return Err(format!("error outside of the input, at {line}:{col}: {plain}"));
    }
    Ok(())
}
/// Compares what reading gives with what the text denotes.
pub fn agree(t: &'static Ty, input: &[u8], doc: Option<&crate::json::Doc>, display: bool) -> Result<bool, String> {
    let want = doc.and_then(|d| crate::json::denote(t, d, attrs));
    let show = |m: String| Err(format!("{:?} as {}: {m}", String::from_utf8_lossy(input), t.name));
    match (read_json(t, input, display), want) {
        (Err(m), _) => show(m),
        (Ok(Read::Refused), None) => Ok(false),
        (Ok(Read::Refused), Some(w)) => show(format!("refused instead of {w:?}")),
        (Ok(Read::Val(v)), Some(w)) if v == w => Ok(true),
        (Ok(Read::Val(v)), _) if doc.and_then(|d| crate::json::denote_merged(t, d, attrs)).as_ref() == Some(&v) => Ok(true),
        (Ok(Read::Val(v)), None) => show(format!("accepted as {v:?}")),
        (Ok(Read::Val(v)), Some(w)) => show(format!("read as {v:?} instead of {w:?}")),
    }
}
