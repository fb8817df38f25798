//! YAML trees, their spellings, and what they mean for a type.
use crate::native::*;
use crate::toml::{Choices, Target, read_with};
use crate::universe::*;
use crate::{native_struct, native_tuple_struct};
use std::collections::HashMap;
use std::sync::Arc;
use yaml_rust2::{Yaml as Parsed, YamlLoader};

#[derive(Clone, Debug, PartialEq)]
pub enum Yaml {
    Null,
    Bool(bool),
    Int(i64),
    /// as written
    Real(String),
    Str(String),
    Arr(Vec<Yaml>),
    Map(Vec<(Yaml, Yaml)>),
    Bad,
}
use Yaml::*;

pub fn st(s: &str) -> Yaml {
    Str(s.into())
}

// ---- spelling ----
fn scalar(v: &Yaml, lex: u8) -> String {
    match v {
        Null => ["null", "~", "null", ""][lex as usize].into(),
        Bool(b) => b.to_string(),
        Int(i) if *i >= 0 => match lex {
            1 => format!("+{i}"),
            2 => format!("0x{i:x}"),
            3 => format!("0o{i:o}"),
            _ => i.to_string(),
        },
        Int(i) => i.to_string(),
        Real(r) => r.clone(),
        Str(s) => {
            let plain = s.starts_with(|c: char| c.is_alphabetic() || c == '_') && s.chars().all(|c| c.is_alphanumeric() || c == '_') && Parsed::from_str(s) == Parsed::String(s.clone());
            match lex {
                0 | 3 if plain => s.clone(),
                1 if s.chars().all(|c| c >= ' ' && c < '\u{7f}') => format!("'{}'", s.replace('\'', "''")),
                _ => {
                    let mut o = String::from("\"");
                    for (i, c) in s.chars().enumerate() {
                        match c {
                            '"' | '\\' => o.extend(['\\', c]),
                            '\n' => o += "\\n",
                            c if c < ' ' || (c >= '\u{7f}' && !c.is_alphabetic()) || (lex == 2 && i % 2 == 0) => {
                                o += &match c as u32 {
                                    x @ ..=0xff => format!("\\x{x:02x}"),
                                    x @ ..=0xffff => format!("\\u{x:04X}"),
                                    x => format!("\\U{x:08x}"),
                                }
                            }
                            c => o.push(c),
                        }
                    }
                    o + "\""
                }
            }
        }
        _ => unreachable!(),
    }
}
fn flow(v: &Yaml, lex: u8) -> String {
    let sep = [", ", ",", " , ", ",\n                                                  "][lex as usize];
    match v {
        Arr(v) => format!("[{}]", v.iter().map(|x| flow(x, lex)).collect::<Vec<_>>().join(sep)),
        Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", flow(k, lex), flow(v, lex))).collect::<Vec<_>>().join(sep)),
        // the empty spelling means something else here
        Null => "null".into(),
        v => scalar(v, lex),
    }
}
/// A node after `key:`, `-` or at the start of the document.
fn node(v: &Yaml, indent: usize, top: bool, lex: u8, ch: &mut Choices, out: &mut String) {
    let pad = " ".repeat(indent);
    match v {
        Map(m) if !m.is_empty() && ch.pick(2) == 0 => {
            if !top {
                out.push('\n');
            }
            for (k, v) in m {
                if lex == 3 {
                    *out += &format!("\n{pad}# - a: [\n");
                }
                if lex == 2 || matches!(k, Arr(_) | Map(_)) {
                    *out += &format!("{pad}? {}\n{pad}:", flow(k, lex));
                } else {
                    *out += &format!("{pad}{}:", flow(k, lex));
                }
                node(v, indent + 1 + lex as usize, false, lex, ch, out);
            }
        }
        Arr(a) if !a.is_empty() && ch.pick(2) == 0 => {
            if !top {
                out.push('\n');
            }
            for v in a {
                *out += &format!("{pad}-");
                node(v, indent + 2, false, lex, ch, out);
            }
        }
        Str(s) if !top && lex >= 1 && !s.is_empty() && s.split('\n').all(|l| l.starts_with(|c: char| c.is_alphanumeric()) && l.chars().all(|c| c >= ' ' && c < '\u{7f}')) && ch.pick(2) == 0 => {
            *out += &format!(" |-\n{pad} {}\n", s.replace('\n', &format!("\n{pad} ")));
        }
        Arr(_) | Map(_) => *out += &format!(" {}\n", flow(v, lex)),
        Null if top => *out += " ~\n",
        v => *out += &format!(" {}{}\n", scalar(v, lex), if lex == 1 { " # 7" } else { "" }),
    }
}
/// The text of a document, in one of its spellings.
pub fn text(v: &Yaml, lex: u8, ch: &mut Choices) -> String {
    let mut s = ["", "---\n", "%YAML 1.2\n---\n", "# a: 1\n"][lex as usize].to_string();
    node(v, 0, true, lex, ch, &mut s);
    if lex == 2 {
        s += "...\n";
    }
    s
}

// ---- meaning ----
pub fn number(s: &str) -> Option<i128> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut n: i128 = 0;
    for b in d.bytes() {
        n = n * 10 + (b - b'0') as i128;
        if n > u64::MAX as i128 {
            return None;
        }
    }
    Some(n)
}
/// The value of type `t` the tree denotes, if it fits and the type is supported.
pub fn denote(t: &'static Ty, d: &Yaml) -> Option<Val> {
    match (&t.kind, t.name.as_str(), d) {
        (Kind::Leaf, "u64", Int(i)) if *i >= 0 => Some(Val::I(*i as i128)),
        (Kind::Leaf, "u64", Bool(b)) => Some(Val::I(*b as i128)),
        (Kind::Leaf, "u64", Str(s) | Real(s)) => number(s).map(Val::I),
        (Kind::Leaf, "String", Str(s)) => Some(Val::S(s.clone())),
        (Kind::Struct(fs), _, Map(m)) => {
            if !m.iter().all(|(k, _)| matches!(k, Str(s) if fs.iter().any(|f| f.0.trim_start_matches('_') == s))) {
                return None;
            }
            fs.iter().map(|f| denote(f.1(), &m.iter().find(|x| x.0 == st(f.0.trim_start_matches('_')))?.1)).collect::<Option<_>>().map(Val::Struct)
        }
        _ => None,
    }
}
/// The tree a value is written as. `None` if there's none.
pub fn document(t: &'static Ty, v: &Val) -> Option<Yaml> {
    Some(match (&t.kind, v) {
        (Kind::Leaf, Val::I(i)) if t.name == "u64" => i64::try_from(*i).map(Int).unwrap_or(Real(i.to_string())),
        (Kind::Leaf, Val::S(s)) if t.name == "String" => Str(s.clone()),
        (Kind::Struct(fs), Val::Struct(vs)) => Map(fs.iter().zip(vs).map(|(f, v)| Some((st(f.0.trim_start_matches('_')), document(f.1(), v)?))).collect::<Option<_>>()?),
        _ => return None,
    })
}
/// Any tree for a value, also for types that aren't supported
pub fn any_document(t: &'static Ty, v: &Val) -> Yaml {
    match (&t.kind, v) {
        (_, Val::Unit | Val::None) => Null,
        (_, Val::B(b)) => Bool(*b),
        (_, Val::I(i)) => i64::try_from(*i).map(Int).unwrap_or(Real(i.to_string())),
        (_, Val::F(b)) => Real(format!("{:?}", f64::from_bits(*b)).replace("inf", ".inf").replace("NaN", ".nan")),
        (_, Val::C(c)) => Str(c.to_string()),
        (_, Val::S(s)) => Str(s.clone()),
        (Kind::Option(i), Val::Some(v)) => any_document(i(), v),
        (Kind::Struct(fs), Val::Struct(vs)) => Map(fs.iter().zip(vs).map(|(f, v)| (st(f.0.trim_start_matches('_')), any_document(f.1(), v))).collect()),
        (Kind::List(i) | Kind::Array(i, _), Val::List(v)) => Arr(v.iter().map(|v| any_document(i(), v)).collect()),
        (Kind::Map(k, t), Val::Map(m)) => Map(m.iter().map(|(l, v)| (any_document(k(), l), any_document(t(), v))).collect()),
        (Kind::Enum(ts), Val::Enum(i, _)) => st(ts[*i].0),
        (Kind::Pointer(i), v) => any_document(i(), v),
        x => panic!("{:?}", x.1),
    }
}
/// What the text says according to yaml-rust2. `None` if malformed or not a single document.
pub fn parse(s: &str) -> Option<Yaml> {
    fn tree(y: &Parsed) -> Yaml {
        match y {
            Parsed::Null => Null,
            Parsed::Boolean(b) => Bool(*b),
            Parsed::Integer(i) => Int(*i),
            Parsed::Real(r) => Real(r.clone()),
            Parsed::String(s) => Str(s.clone()),
            Parsed::Array(a) => Arr(a.iter().map(tree).collect()),
            Parsed::Hash(h) => Map(h.iter().map(|(k, v)| (tree(k), tree(v))).collect()),
            Parsed::Alias(_) | Parsed::BadValue => Bad,
        }
    }
    let docs = YamlLoader::load_from_str(s).ok()?;
    (docs.len() == 1).then(|| tree(&docs[0]))
}
/// Whether reading gives what the tree denotes.
pub fn agree(t: &Target, s: &str, d: Option<&Yaml>) -> Result<bool, String> {
    crate::toml::same(t, s, d.and_then(|d| denote(t.ty, d)))
}
fn read<T: Native>(s: &str) -> Result<Option<Val>, String> {
    read_with::<T>(s, |s| facet_yaml::from_str::<T>(s).map_err(|e| format!("{e}")))
}

native_struct!(Y2 { a: u64, b: String });
native_struct!(Y3 { a: u64, b: u64, c: String });
native_struct!(YIn { a: Y2, b: Y3, c: String });
native_struct!(YDeep { x: YIn, y: u64, z: YOne });
native_struct!(YOne { a: u64 });
native_struct!(YWide { a: u64, b: String, c: u64, d: u64, e: String, f: Y2, g: u64, h: u64, i: String, j: u64, k: YOne, l: u64, m: u64, n: u64, o: String, p: u64, q: u64 });
native_struct!(YL3 { a: YDeep, b: String });
native_struct!(YL4 { a: u64, b: YL3 });
native_struct!(YL5 { b: YL4, a: u64 });
native_struct!(YL6 { a: YL5, b: u64 });
native_struct!(YEmpty { });
native_struct!(YHold { e: YEmpty, a: u64 });
native_tuple_struct!(YTup(0: u64, 1: String));
native_struct!(YTups { t: YTup, u: (u64, String) });
native_struct!(YBad1 { a: u64, b: Vec<u64> });
native_struct!(YBad2 { a: u32 });
native_struct!(YBad3 { a: Option<u64>, b: u64 });
native_struct!(YBad4 { a: HashMap<String, u64>, b: String });
native_struct!(YBad5 { a: E, b: String });
native_struct!(YBad6 { a: u64, b: bool, c: i64, d: f64, e: char });
native_struct!(YBad7 { a: Arc<u64>, b: String });
native_struct!(YBad8 { b: String, a: [u64; 2] });

macro_rules! targets {
    ($($t:ty),* $(,)?) => { vec![$(Target { ty: <$t>::ty(), read: read::<$t> }),*] };
}
pub fn targets() -> Vec<Target> {
    targets![
        Y2, Y3, YIn, YDeep, YOne, YEmpty, YHold, YTup, YTups, u64, String, (u64, String), S2, YBad1, YBad2, YBad3, YBad4, YBad5, YBad6, YBad7, YBad8, Vec<u64>, HashMap<String, u64>, HashMap<u64, String>, E, Option<u64>,
        Option<Y2>, Vec<Y2>, [u64; 2], Arc<Y2>, u8, i64, f64, bool, Tree, Vec<String>, Vec<Vec<u64>>, HashMap<String, Y2>, EU, YWide, YL6,
    ]
}
