//! TOML trees, their spellings, and what they mean for a type.
use crate::json::int_range;
use crate::native::*;
use crate::universe::*;
use crate::{native_enum, native_struct, native_tuple_struct};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Toml {
    Str(String),
    Int(i64),
    Float(u64),
    Bool(bool),
    Date(String),
    Arr(Vec<Toml>),
    Table(Vec<(String, Toml)>),
}
use Toml::*;

/// Enumerates every sequence of choices a function makes.
#[derive(Default)]
pub struct Choices {
    digits: Vec<(usize, usize)>,
    pos: usize,
}
impl Choices {
    pub fn pick(&mut self, n: usize) -> usize {
        if self.pos == self.digits.len() {
            self.digits.push((0, n));
        }
        let d = self.digits[self.pos];
        assert_eq!(d.1, n);
        self.pos += 1;
        d.0
    }
    /// `f` with every sequence of choices, at most `limit` of them
    pub fn all(limit: usize, f: &mut dyn FnMut(&mut Choices) -> Result<(), String>) -> Result<u64, String> {
        let mut c = Choices::default();
        let mut n = 0;
        loop {
            c.pos = 0;
            f(&mut c)?;
            n += 1;
            c.digits.truncate(c.pos);
            while let Some((d, n)) = c.digits.pop() {
                if d + 1 < n {
                    c.digits.push((d + 1, n));
                    break;
                }
            }
            if c.digits.is_empty() || n >= limit as u64 {
                return Ok(n);
            }
        }
    }
}

// ---- spelling ----
fn basic(s: &str, all: bool) -> String {
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        match c {
            '"' | '\\' => o.extend(['\\', c]),
            '\n' => o += "\\n",
            c if c < ' ' || c == '\u{7f}' || (all && i % 2 == 0) => o += &if (c as u32) < 0x10000 { format!("\\u{:04x}", c as u32) } else { format!("\\U{:08X}", c as u32) },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn literal_ok(s: &str) -> bool {
    s.chars().all(|c| (c >= ' ' || c == '\t') && c != '\'' && c != '\u{7f}')
}
pub fn key(s: &str, lex: u8) -> String {
    let bare = !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
    match lex {
        0 | 3 if bare => s.into(),
        1 if literal_ok(s) => format!("'{s}'"),
        2 => basic(s, true),
        _ => basic(s, false),
    }
}
fn value(v: &Toml, lex: u8, ch: &mut Choices, out: &mut String) {
    match v {
        Str(s) => match lex {
            1 if literal_ok(s) => *out += &format!("'{s}'"),
            2 => {
                let b = basic(s, true);
                *out += &format!("\"\"\"\n{}\"\"\"", &b[1..b.len() - 1])
            }
            3 if literal_ok(s) => *out += &format!("'''{s}'''"),
            _ => *out += &basic(s, lex == 3),
        },
        Int(i) => match lex {
            1 if *i >= 0 => *out += &format!("+{i}"),
            2 if *i >= 0 => *out += &format!("0x{i:X}"),
            3 if *i >= 0 => *out += &format!("0b{i:b}"),
            3 => {
                let s = i.to_string();
                *out += &if s.len() > 2 { format!("{}_{}", &s[..2], &s[2..]) } else { s }
            }
            _ => *out += &i.to_string(),
        },
        Float(b) => {
            let f = f64::from_bits(*b);
            if f.is_nan() {
                *out += ["nan", "+nan", "nan", "nan"][lex as usize];
            } else if f.is_infinite() {
                *out += if f < 0.0 { "-inf" } else { ["inf", "+inf", "inf", "inf"][lex as usize] };
            } else {
                *out += &match lex {
                    1 if f.is_sign_positive() => format!("+{f:?}"),
                    2 => format!("{f:E}"),
                    _ => format!("{f:?}"),
                }
            }
        }
        Bool(b) => *out += &b.to_string(),
        Date(d) => *out += d,
        Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    *out += if lex == 1 { " , " } else { "," };
                }
                if lex >= 2 {
                    *out += "\n # ],}\n\t";
                }
                value(x, lex, ch, out);
            }
            if lex >= 2 && !v.is_empty() {
                *out += ",\n";
            }
            out.push(']');
        }
        Table(m) => {
            out.push('{');
            let mut first = true;
            for (k, x) in m {
                pair(&key(k, lex), x, lex, ch, &mut |s| {
                    if !std::mem::take(&mut first) {
                        *out += ", ";
                    }
                    *out += s;
                });
            }
            out.push('}');
        }
    }
}
/// `key = value`, or a table's `key.key = value`s
fn pair(k: &str, v: &Toml, lex: u8, ch: &mut Choices, f: &mut dyn FnMut(&str)) {
    if let Table(m) = v {
        if !m.is_empty() && ch.pick(2) == 1 {
            for (l, w) in m {
                pair(&format!("{k}{}{}", if lex == 1 { " . " } else { "." }, key(l, lex)), w, lex, ch, f);
            }
            return;
        }
    }
    let mut s = format!("{k}{}", if lex == 0 { "=" } else { " = " });
    value(v, lex, ch, &mut s);
    f(&s);
}
fn section(path: &str, m: &[(String, Toml)], lex: u8, ch: &mut Choices, all_headers: bool, out: &mut String) {
    let mut later: Vec<(String, &Toml, usize)> = vec![];
    for (k, v) in m {
        let k = key(k, lex);
        let full = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
        match v {
            Table(sub) => {
                let only = !sub.is_empty() && sub.iter().all(|x| headed(&x.1));
                match ch.pick(if all_headers { 1 } else { 2 } + only as usize) {
                    0 => later.push((full, v, 0)),
                    1 if !all_headers => pair(&k, v, lex, ch, &mut |s| *out += &format!("{s}\n")),
                    // without a header of its own
                    _ => later.push((full, v, 1)),
                }
            }
            Arr(_) if headed(v) && (all_headers || ch.pick(2) == 0) => later.push((full, v, 0)),
            _ => pair(&k, v, lex, ch, &mut |s| *out += &format!("{s}\n")),
        }
    }
    for (full, v, implied) in later {
        match v {
            Table(sub) => {
                if implied == 0 {
                    *out += &if lex == 2 { format!("  [ {full} ] # = [\n") } else { format!("[{full}]\n") };
                }
                section(&full, sub, lex, ch, implied == 1, out);
            }
            Arr(v) => {
                for x in v {
                    let Table(sub) = x else { unreachable!() };
                    *out += &format!("[[{full}]]\n");
                    section(&full, sub, lex, ch, false, out);
                }
            }
            _ => unreachable!(),
        }
    }
}
fn headed(v: &Toml) -> bool {
    match v {
        Table(_) => true,
        Arr(v) => !v.is_empty() && v.iter().all(|x| matches!(x, Table(_))),
        _ => false,
    }
}
/// The text of a document, in one of its spellings.
pub fn text(root: &[(String, Toml)], lex: u8, ch: &mut Choices) -> String {
    let mut s = String::new();
    section("", root, lex, ch, false, &mut s);
    s
}

// ---- meaning ----
const FROM_TEXT: &[&str] = &["IpAddr", "Ipv4Addr", "Ipv6Addr", "SocketAddr"];
/// The value of type `t` the tree denotes, if it fits.
pub fn denote(t: &'static Ty, d: &Toml) -> Option<Val> {
    match (&t.kind, d) {
        (Kind::Option(i), d) => denote(i(), d).map(|v| Val::Some(Box::new(v))),
        (Kind::Leaf, d) => match (t.name.as_str(), d) {
            ("bool", Bool(b)) => Some(Val::B(*b)),
            ("String" | "Cow<str>", Str(s)) => Some(Val::S(s.clone())),
            ("f64", Int(i)) => Some(Val::F((*i as f64).to_bits())),
            ("f32", Int(i)) => Some(Val::F((*i as f32 as f64).to_bits())),
            ("f64", Float(b)) => Some(Val::F(*b)),
            ("f32", Float(b)) => {
                let f = f64::from_bits(*b);
                let g = f as f32;
                (g.is_infinite() == f.is_infinite()).then_some(Val::F((g as f64).to_bits()))
            }
            (n, Str(s)) if FROM_TEXT.contains(&n) => (t.parse?)(s),
            (n, Int(_) | Float(_)) => {
                let (lo, hi, nz) = int_range(n)?;
                let i = match d {
                    Int(i) => *i as i128,
                    Float(b) => {
                        let f = f64::from_bits(*b);
                        if f.fract() != 0.0 || f.abs() > 1e30 {
                            return None;
                        }
                        f as i128
                    }
                    _ => unreachable!(),
                };
                (lo <= i && i <= hi && !nz).then_some(Val::I(i))
            }
            _ => None,
        },
        (Kind::List(i), Arr(v)) => v.iter().map(|d| denote(i(), d)).collect::<Option<_>>().map(Val::List),
        (Kind::Map(k, v), Table(m)) => {
            if !["String", "Cow<str>"].contains(&k().name.as_str()) && !m.is_empty() {
                return None;
            }
            m.iter().map(|(k, d)| Some((Val::S(k.clone()), denote(v(), d)?))).collect::<Option<_>>().map(Val::Map)
        }
        (Kind::Struct(fs), d) => fields(fs, d).map(Val::Struct),
        (Kind::Enum(vs), d) => {
            let (name, content) = match d {
                Str(s) => (s, None),
                Table(m) if m.len() == 1 => (&m[0].0, Some(&m[0].1)),
                _ => return None,
            };
            let i = vs.iter().position(|v| v.0 == name)?;
            let fs = &vs[i].1;
            match content {
                None => fs.is_empty().then_some(Val::Enum(i, vec![])),
                Some(d) => fields(fs, d).map(|f| Val::Enum(i, f)),
            }
        }
        _ => None,
    }
}
fn fields(fs: &[(&'static str, TyFn)], d: &Toml) -> Option<Vec<Val>> {
    match d {
        Table(m) => fs
            .iter()
            .map(|f| match m.iter().find(|x| x.0 == f.0.trim_start_matches('_')) {
                Some((_, d)) => denote(f.1(), d),
                None => matches!(f.1().kind, Kind::Option(_)).then_some(Val::None),
            })
            .collect(),
        d if fs.len() == 1 => Some(vec![denote(fs[0].1(), d)?]),
        _ => None,
    }
}
/// The tree a value is written as, in one of its forms. `None` if there's none.
pub fn document(t: &'static Ty, v: &Val, ch: &mut Choices) -> Option<Toml> {
    fn table(fs: &[(&'static str, TyFn)], vs: &[Val], ch: &mut Choices) -> Option<Toml> {
        let mut m = vec![];
        for (f, v) in fs.iter().zip(vs) {
            if *v != Val::None {
                m.push((f.0.trim_start_matches('_').to_string(), document(f.1(), v, ch)?));
            }
        }
        Some(Table(m))
    }
    fn content(fs: &[(&'static str, TyFn)], vs: &[Val], ch: &mut Choices) -> Option<Toml> {
        if fs.len() == 1 && vs[0] != Val::None && ch.pick(2) == 1 {
            let d = document(fs[0].1(), &vs[0], ch)?;
            if !matches!(d, Table(_)) {
                return Some(d);
            }
        }
        table(fs, vs, ch)
    }
    Some(match (&t.kind, v) {
        (Kind::Option(i), Val::Some(v)) => document(i(), v, ch)?,
        (Kind::Leaf, Val::B(b)) => Bool(*b),
        (Kind::Leaf, Val::I(i)) if int_range(&t.name).is_some_and(|x| !x.2) => Int((*i).try_into().ok()?),
        (Kind::Leaf, Val::F(b)) => Float(*b),
        (Kind::Leaf, Val::S(s)) if ["String", "Cow<str>"].contains(&t.name.as_str()) || FROM_TEXT.contains(&t.name.as_str()) => Str(s.clone()),
        (Kind::List(i), Val::List(v)) => Arr(v.iter().map(|v| document(i(), v, ch)).collect::<Option<_>>()?),
        (Kind::Map(k, vt), Val::Map(m)) => {
            if !["String", "Cow<str>"].contains(&k().name.as_str()) {
                return None;
            }
            let mut out = vec![];
            for (k, v) in m {
                let Val::S(k) = k else { unreachable!() };
                out.push((k.clone(), document(vt(), v, ch)?));
            }
            Table(out)
        }
        (Kind::Struct(fs), Val::Struct(vs)) => content(fs, vs, ch)?,
        (Kind::Enum(ts), Val::Enum(i, vs)) => {
            let (name, fs) = &ts[*i];
            if fs.is_empty() && ch.pick(2) == 0 {
                Str(name.to_string())
            } else {
                Table(vec![(name.to_string(), content(fs, vs, ch)?)])
            }
        }
        _ => return None,
    })
}
/// What the text says according to toml_edit. `None` if malformed.
pub fn parse(s: &str) -> Option<Toml> {
    fn value(v: &toml_edit::Value) -> Toml {
        match v {
            toml_edit::Value::String(s) => Str(s.value().clone()),
            toml_edit::Value::Integer(i) => Int(*i.value()),
            toml_edit::Value::Float(f) => Float(f.value().to_bits()),
            toml_edit::Value::Boolean(b) => Bool(*b.value()),
            toml_edit::Value::Datetime(d) => Date(d.value().to_string()),
            toml_edit::Value::Array(a) => Arr(a.iter().map(value).collect()),
            toml_edit::Value::InlineTable(t) => Table(t.iter().map(|(k, v)| (k.to_string(), value(v))).collect()),
        }
    }
    fn table(t: &toml_edit::Table) -> Toml {
        Table(t.iter().filter_map(|(k, v)| Some((k.to_string(), item(v)?))).collect())
    }
    fn item(i: &toml_edit::Item) -> Option<Toml> {
        Some(match i {
            toml_edit::Item::None => return None,
            toml_edit::Item::Value(v) => value(v),
            toml_edit::Item::Table(t) => table(t),
            toml_edit::Item::ArrayOfTables(a) => Arr(a.iter().map(table).collect()),
        })
    }
    Some(table(s.parse::<toml_edit::DocumentMut>().ok()?.as_table()))
}
pub fn canon(v: &Val) -> Val {
    match v {
        Val::F(b) if f64::from_bits(*b).is_nan() => Val::F(f64::NAN.to_bits()),
        Val::Some(x) => Val::Some(Box::new(canon(x))),
        Val::Struct(v) => Val::Struct(v.iter().map(canon).collect()),
        Val::Enum(i, v) => Val::Enum(*i, v.iter().map(canon).collect()),
        Val::List(v) => Val::List(v.iter().map(canon).collect()),
        Val::Map(m) => Val::Map(m.iter().map(|(k, v)| (canon(k), canon(v))).collect()),
        v => v.clone(),
    }
}

// ---- reading ----
pub struct Target {
    pub ty: &'static Ty,
    pub read: fn(&str) -> Result<Option<Val>, String>,
}
/// Reads a document; a panic or a leak is an Err.
fn read<T: Native>(s: &str) -> Result<Option<Val>, String> {
    read_with::<T>(s, |s| facet_toml::from_str::<T>(s).map_err(|e| format!("{e}")))
}
thread_local! { static LAST_ERROR: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) } }
/// The text of the error the last refused document was refused with.
pub fn last_error() -> String {
    LAST_ERROR.with(|e| e.borrow().clone())
}
pub fn read_with<T: Native>(s: &str, f: fn(&str) -> Result<T, String>) -> Result<Option<Val>, String> {
    crate::at(s.as_bytes());
    let mut out: Result<Option<Val>, String> = Ok(None);
    let (_, rep) = crate::tracked(|| match crate::catching(|| f(s)) {
        Ok(Ok(x)) => {
            let v = crate::untracked(|| canon(&x.unmake()));
            drop(x);
            crate::untracked(|| out = Ok(Some(v)))
        }
        Ok(Err(e)) => crate::untracked(|| {
            if e.is_empty() {
                out = Err("empty error".into())
            }
            LAST_ERROR.with(|l| *l.borrow_mut() = e.clone());
        }),
        Err(m) => out = crate::untracked(|| Err(format!("panic: {m}"))),
    });
    if !rep.clean() {
        return Err(format!("memory: {}", rep.describe()));
    }
    out
}
/// Whether reading gives what the tree denotes.
pub fn agree(t: &Target, s: &str, d: Option<&Toml>) -> Result<bool, String> {
    same(t, s, d.and_then(|d| denote(t.ty, d)).map(|v| canon(&v)))
}
pub fn same(t: &Target, s: &str, want: Option<Val>) -> Result<bool, String> {
    match ((t.read)(s), want) {
        (Err(m), _) => Err(format!("{s:?} as {}: {m}", t.ty.name)),
        (Ok(None), None) => Ok(false),
        (Ok(Some(g)), Some(w)) if g == w => Ok(true),
        (Ok(Some(g)), None) => Err(format!("{s:?} as {}: read as {g:?} instead of being refused", t.ty.name)),
        (Ok(None), Some(w)) => Err(format!("{s:?} as {}: refused instead of {w:?}", t.ty.name)),
        (Ok(Some(g)), Some(w)) => Err(format!("{s:?} as {}: read as {g:?} instead of {w:?}", t.ty.name)),
    }
}

macro_rules! text_native {
    ($($t:ty, $n:literal, [$($x:literal),*];)*) => { $(
        impl Native for $t {
            fn make(v: &Val) -> Self { match v { Val::S(s) => s.parse().unwrap(), v => panic!("bad val {v:?}") } }
            fn unmake(&self) -> Val { Val::S(self.to_string()) }
            fn describe() -> Desc {
                Desc {
                    parse: Some(|s| s.parse::<$t>().ok().map(|x| Val::S(x.to_string()))),
                    gens: Some(|k, _| { let v = [$($x),*]; let n = v.len(); (0..n).map(|i| Val::S(v[(i + k as usize) % n].to_string())).collect() }),
                    ..desc($n, Kind::Leaf)
                }
            }
        }
    )* };
}
text_native! {
    IpAddr, "IpAddr", ["127.0.0.1", "::1", "255.255.255.255"];
    Ipv4Addr, "Ipv4Addr", ["127.0.0.1", "0.0.0.0"];
    Ipv6Addr, "Ipv6Addr", ["::1", "1:2:3:4:5:6:7:8"];
    SocketAddr, "SocketAddr", ["127.0.0.1:80", "[::1]:65535"];
}
native_struct!(TAll { a: u8, b: i64, c: f32, d: f64, e: bool, f: String, g: Cow<'static, str>, h: u64, i: i8 });
native_struct!(TNet { a: IpAddr, b: Ipv4Addr, c: Ipv6Addr, d: SocketAddr });
native_struct!(TOpt { a: Option<u8>, b: Option<String>, c: Option<Option<bool>>, d: u8 });
native_struct!(TOpts { a: Option<S2>, b: Vec<Option<u8>>, c: Option<Vec<u8>>, d: Option<HashMap<String, u8>> });
native_enum!(#[repr(u8)] TE {
    A, B(_0: u32), C(_0: String, _1: Option<u8>), D { d: u8 }, E { x: Option<String>, y: Vec<u8> }, F(_0: S2), G(_0: Option<u8>), H(_0: Vec<S2>), J(_0: String), K { k: String, l: TUnit }, L(_0: TUnit), M { m: Option<u8> },
});
native_enum!(#[repr(i16)] TUnit { A, B, Cee });
native_struct!(TEnums { a: TE, b: Option<TE>, c: Vec<TE>, d: HashMap<String, TE>, e: TUnit });
native_struct!(TLists { a: Vec<u8>, b: Vec<S2>, c: Vec<Vec<String>>, d: Vec<TNew> });
native_tuple_struct!(TNew(0: u32));
native_tuple_struct!(TNew2(0: TNew));
native_struct!(TOne { one: u32 });
native_struct!(TNews { a: TNew, b: TNew2, c: TOne, d: (u8, String), e: Option<TNew> });
native_struct!(TMaps { a: HashMap<String, u8>, b: BTreeMap<String, S2>, c: HashMap<Cow<'static, str>, Vec<u8>>, d: HashMap<String, HashMap<String, Option<u8>>> });
native_enum!(#[repr(u16)] TWide {
    V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16(_0: u8), V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33 { a: String }, V34,
    T(_0: u8, _1: String, _2: u16, _3: bool, _4: Option<u8>, _5: i8, _6: u64, _7: Vec<u8>, _8: String, _9: u8, _10: i64, _11: String),
    S { a: u8, b: String, c: u16, d: bool, e: Option<u8>, f: i8, g: u64, h: Vec<u8>, i: String, j: u8, k: i64, l: String },
});
native_struct!(TTree { v: u8, kids: Vec<TTree> });
native_struct!(TBad { a: char, b: u8 });
native_struct!(TPtr { a: u8, b: Option<Arc<u8>> });
native_struct!(TKeys { m: HashMap<u8, u8> });
native_struct!(TUnits { a: Vec<TUnit>, b: TUnit, c: UnitLike });
native_tuple_struct!(TList1(0: Vec<S2>));
native_tuple_struct!(TMap1(0: HashMap<String, u8>));
native_struct!(TNest { s: N2, t: Deep, u: Vec<TOpt>, e: SE });

macro_rules! targets {
    ($($t:ty),* $(,)?) => { vec![$(Target { ty: <$t>::ty(), read: read::<$t> }),*] };
}
pub fn targets() -> Vec<Target> {
    targets![
        TAll, TNet, TOpt, TOpts, TE, TUnit, TEnums, TLists, TNew, TNew2, TOne, TNews, TMaps, TTree, TBad, TPtr, TKeys, TUnits, TList1, TMap1, TNest, S2, N2, Deep, UnitLike, SE, T2,
        HashMap<String, u8>, HashMap<String, String>, BTreeMap<String, Vec<u8>>, HashMap<String, S2>, HashMap<String, TE>, HashMap<String, Option<TE>>, HashMap<String, Vec<Vec<u8>>>, HashMap<Cow<'static, str>, bool>,
        HashMap<String, HashMap<String, u8>>, Option<S2>, Option<TE>, Option<HashMap<String, f64>>, HashMap<u8, u8>, HashMap<String, Option<Option<u8>>>, HashMap<String, TNew>, HashMap<String, (u8, String)>,
        HashMap<String, f32>, HashMap<String, f64>, HashMap<String, i8>, HashMap<String, i16>, HashMap<String, i32>, HashMap<String, i64>, HashMap<String, isize>, HashMap<String, u16>, HashMap<String, u32>,
        HashMap<String, u64>, HashMap<String, usize>, HashMap<String, u128>, HashMap<String, ()>, HashMap<String, Arc<u8>>, HashMap<String, [u8; 2]>, HashMap<String, IpAddr>, Vec<u8>, u8, String, [u8; 2], Arc<S2>, (u8, String),
        EC, EI, EU, Ei8, HashMap<String, SocketAddr>, HashMap<String, Ipv4Addr>, HashMap<String, Ipv6Addr>, HashMap<String, TUnit>, HashMap<String, TList1>, Vec<S2>, HashMap<String, Arc<TTree>>, HashMap<String, TWide>, TWide, HashMap<String, crate::fmt::Tup12>, crate::fmt::Tup12,
    ]
}
