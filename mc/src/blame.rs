//! What the error of a refused document has to name: for every fault in it, what tells that fault.
use crate::form;
use crate::json::int_range;
use crate::native::*;
use crate::toml::Toml;
use crate::yaml::Yaml;

#[derive(Clone, Debug)]
pub enum Frag {
    /// the text occurs, in whatever case
    Has(String),
    /// the name occurs, in quotes, maybe after that of its type
    Name(String),
    /// the field's name occurs after that of its type
    Field(String, String),
}
use Frag::*;
/// A fault is told by all of these.
pub type Fault = Vec<Frag>;

pub fn has(s: impl Into<String>) -> Frag {
    Has(s.into())
}
fn name(s: &str) -> Frag {
    Name(s.into())
}
impl Frag {
    fn in_text(&self, text: &str) -> bool {
        match self {
            Has(s) => text.to_lowercase().contains(&s.to_lowercase()),
            Name(n) => ["'", "::", "`", "\""].iter().any(|q| text.contains(&format!("{q}{n}{}", if *q == "::" { "'" } else { q }))),
            Field(t, n) => text.contains(&format!("{t}::{n}'")),
        }
    }
}
/// Whether the error's text tells one of the faults.
pub fn tells(text: &str, faults: &[Fault]) -> Result<(), String> {
    if faults.iter().any(|f| f.iter().all(|x| x.in_text(text))) {
        return Ok(());
    }
    Err(format!("the error {text:?} tells none of the faults: {faults:?}"))
}
fn plain(n: &str) -> &str {
    n.trim_start_matches('_')
}

// ---- TOML ----
fn toml_kind(d: &Toml) -> &'static str {
    match d {
        Toml::Str(_) => "string",
        Toml::Int(_) => "integer",
        Toml::Float(_) => "float",
        Toml::Bool(_) => "boolean",
        Toml::Date(_) => "datetime",
        Toml::Arr(_) => "array",
        Toml::Table(_) => "table",
    }
}
pub fn toml(t: &'static Ty, d: &Toml, out: &mut Vec<Fault>) {
    let kind = || has(toml_kind(d));
    match (&t.kind, d) {
        (Kind::Option(i), d) => toml(i(), d, out),
        (Kind::Leaf, d) => {
            if crate::toml::denote(t, d).is_some() {
                return;
            }
            let number = !["char", "u128", "i128", "()"].contains(&t.name.as_str()) && (int_range(&t.name).is_some_and(|x| !x.2) || ["f32", "f64"].contains(&t.name.as_str()));
            out.push(match (t.name.as_str(), d) {
                ("bool" | "String" | "Cow<str>", _) => vec![kind()],
                ("IpAddr" | "Ipv4Addr" | "Ipv6Addr", Toml::Str(_)) => vec![kind(), has("ip")],
                ("SocketAddr", Toml::Str(_)) => vec![kind(), has("socket")],
                ("IpAddr" | "Ipv4Addr" | "Ipv6Addr" | "SocketAddr", _) => vec![kind()],
                (n, Toml::Int(_) | Toml::Float(_)) if number => vec![kind(), has(n)],
                _ if number => vec![kind()],
                _ => vec![has("unsupported")],
            })
        }
        (Kind::List(i), Toml::Arr(v)) => v.iter().for_each(|d| toml(i(), d, out)),
        (Kind::List(_), _) => out.push(vec![kind()]),
        (Kind::Map(k, v), Toml::Table(m)) => {
            if !["String", "Cow<str>"].contains(&k().name.as_str()) && !m.is_empty() {
                out.push(vec![has("map key"), has(k().name.as_str())]);
                out.push(vec![has("unsupported")]);
            }
            m.iter().for_each(|(_, d)| toml(v(), d, out));
        }
        (Kind::Map(..), _) => out.push(vec![kind()]),
        (Kind::Struct(fs), Toml::Table(_)) => toml_fields(fs, d, out),
        (Kind::Struct(fs), d) => match fs.len() {
            1 => toml(fs[0].1(), d, out),
            0 => out.push(vec![has("unit struct")]),
            _ => out.push(vec![has("multiple fields")]),
        },
        (Kind::Enum(vs), d) => {
            let (n, content) = match d {
                Toml::Str(s) => (s, None),
                Toml::Table(m) if m.len() == 1 => (&m[0].0, Some(&m[0].1)),
                Toml::Table(m) => return out.push(vec![has("table"), has(if m.is_empty() { "any fields" } else { "multiple fields" })]),
                _ => return out.push(vec![kind()]),
            };
            let Some(v) = vs.iter().find(|v| v.0 == n) else { return out.push(vec![name(n), has("variant")]) };
            match content {
                None if v.1.is_empty() => {}
                None => out.push(vec![name(n), has("variant")]),
                Some(d @ Toml::Table(_)) => toml_fields(&v.1, d, out),
                Some(d) if v.1.len() == 1 => toml(v.1[0].1(), d, out),
                Some(d) => out.push(vec![name(n), has(toml_kind(d)), has(format!("{} fields", v.1.len()))]),
            }
        }
        _ => out.push(vec![has("unsupported")]),
    }
}
fn toml_fields(fs: &[(&'static str, TyFn)], d: &Toml, out: &mut Vec<Fault>) {
    let Toml::Table(m) = d else { unreachable!() };
    for f in fs {
        match m.iter().find(|x| x.0 == plain(f.0)) {
            Some((_, d)) => toml(f.1(), d, out),
            None if matches!(f.1().kind, Kind::Option(_)) => {}
            None => out.push(vec![name(plain(f.0))]),
        }
    }
}

// ---- what is missing ----
/// The incomplete field of the root, or the missing one within.
fn missing(t: &'static Ty, f: &str, out: &mut Vec<Fault>) {
    out.push(vec![Field((t.shape)().to_string(), f.into()), has("not initialized")]);
    if plain(f) != f {
        out.push(vec![Field((t.shape)().to_string(), plain(f).into()), has("not initialized")]);
    }
}

// ---- YAML ----
fn yaml_kind(d: &Yaml) -> &'static str {
    match d {
        Yaml::Null => "null",
        Yaml::Bool(_) => "boolean",
        Yaml::Int(_) => "integer",
        Yaml::Real(_) => "real",
        Yaml::Str(_) => "string",
        Yaml::Arr(_) => "array",
        Yaml::Map(_) => "hash/map",
        Yaml::Bad => "",
    }
}
/// Whether all of the value is given, right or wrong.
fn yaml_complete(t: &'static Ty, d: &Yaml) -> bool {
    match (&t.kind, d) {
        (Kind::Struct(fs), Yaml::Map(m)) => fs.iter().all(|f| m.iter().any(|(k, d)| *k == Yaml::Str(plain(f.0).into()) && yaml_complete(f.1(), d))),
        _ => true,
    }
}
pub fn yaml(t: &'static Ty, d: &Yaml, out: &mut Vec<Fault>) {
    match (&t.kind, t.name.as_str(), d) {
        (Kind::Leaf, "u64", d) => {
            if crate::yaml::denote(t, d).is_some() {
                return;
            }
            out.push(match d {
                Yaml::Int(i) => vec![has(i.to_string()), has("u64")],
                d => vec![has(yaml_kind(d)), has("u64")],
            })
        }
        (Kind::Leaf, "String", Yaml::Str(_)) => {}
        (Kind::Leaf, "String", d) => out.push(vec![has("expected string"), has(yaml_kind(d))]),
        (Kind::Struct(fs), _, Yaml::Map(m)) => {
            for (k, d) in m {
                match k {
                    Yaml::Str(k) => match fs.iter().find(|f| plain(f.0) == k) {
                        Some(f) => yaml(f.1(), d, out),
                        None => out.push(vec![name(k), has("not found")]),
                    },
                    k => out.push(vec![has("key"), has(yaml_kind(k))]),
                }
            }
            for f in fs {
                if !m.iter().any(|(k, d)| *k == Yaml::Str(plain(f.0).into()) && yaml_complete(f.1(), d)) {
                    missing(t, f.0, out);
                }
            }
        }
        (Kind::Struct(_), ..) => out.push(vec![has("hash")]),
        _ => out.push(vec![has("unsupported")]),
    }
}

// ---- forms ----
type Pair<'a> = (&'a [String], &'a str);
fn own<'a>(ps: &[Pair<'a>], f: &str) -> Vec<Pair<'a>> {
    // (a path may end within: a value for what should have parts)
    ps.iter().filter(|p| p.0.first().is_some_and(|k| k == plain(f))).map(|p| (&p.0[1..], p.1)).collect()
}
fn form_complete(t: &'static Ty, ps: &[Pair<'_>]) -> bool {
    match &t.kind {
        _ if ps.is_empty() => false,
        Kind::Struct(fs) => fs.iter().all(|f| form_complete(f.1(), &own(ps, f.0))),
        _ => true,
    }
}
fn form_fields(t: &'static Ty, ps: &[Pair<'_>], out: &mut Vec<Fault>) {
    let Kind::Struct(fs) = &t.kind else { return out.push(vec![has("unsupported")]) };
    for f in fs {
        let ft = f.1();
        let own = own(ps, f.0);
        let sub: Vec<Pair<'_>> = own.iter().filter(|p| !p.0.is_empty()).cloned().collect();
        if let Some((_, v)) = own.iter().rev().find(|p| p.0.is_empty()) {
            match (&ft.kind, ft.name.as_str()) {
                (Kind::Leaf, "u64") if crate::yaml::number(v).is_none() => out.push(vec![has(format!("field '{}'", plain(f.0))), has(format!("'{v}'")), has("number")]),
                (Kind::Leaf, "u64" | "String") => {}
                (Kind::Leaf, n) => out.push(vec![has("unsupported"), has(n)]),
                _ => out.push(vec![name(plain(f.0)), has("scalar")]),
            }
        }
        if !sub.is_empty() {
            match &ft.kind {
                Kind::Struct(_) => form_fields(ft, &sub, out),
                _ => out.push(vec![name(plain(f.0)), has("struct")]),
            }
        }
        if own.is_empty() || (!sub.is_empty() && matches!(ft.kind, Kind::Struct(_)) && !form_complete(ft, &sub)) {
            missing(t, f.0, out);
        }
    }
}
pub fn form(t: &'static Ty, s: &str, out: &mut Vec<Fault>) {
    let ps: Vec<(Vec<String>, String)> = form::pairs(s).into_iter().map(|(k, v)| (form::path(&k), v)).collect();
    form_fields(t, &ps.iter().map(|(k, v)| (&k[..], &v[..])).collect::<Vec<_>>(), out);
}

// ---- MessagePack: the first fault ----
#[derive(Clone, Debug, PartialEq)]
pub enum MpFault {
    CutOff,
    Kind,
    Range,
    Malformed,
    Unsupported,
}
struct Bytes<'a>(&'a [u8]);
impl<'a> Bytes<'a> {
    fn take(&mut self, n: u64) -> Result<&'a [u8], MpFault> {
        if n > self.0.len() as u64 {
            return Err(MpFault::CutOff);
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Ok(a)
    }
    fn num(&mut self, n: u64) -> Result<u64, MpFault> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn text(&mut self) -> Result<&'a str, MpFault> {
        let n = match self.num(1)? {
            m @ 0xa0..=0xbf => m & 31,
            m @ 0xd9..=0xdb => self.num(1 << (m - 0xd9))?,
            _ => return Err(MpFault::Kind),
        };
        std::str::from_utf8(self.take(n)?).map_err(|_| MpFault::Malformed)
    }
    fn skip(&mut self) -> Result<(), MpFault> {
        let mut left = 1u64;
        while left > 0 {
            left -= 1;
            let m = self.num(1)?;
            let (bytes, values) = match m {
                0..=0x7f | 0xc0 | 0xc2 | 0xc3 | 0xe0..=0xff => (0, 0),
                0x80..=0x8f => (0, 2 * (m & 15)),
                0x90..=0x9f => (0, m & 15),
                0xa0..=0xbf => (m & 31, 0),
                0xc4..=0xc6 => (self.num(1 << (m - 0xc4))?, 0),
                0xc7..=0xc9 => (self.num(1 << (m - 0xc7))? + 1, 0),
                0xca => (4, 0),
                0xcb => (8, 0),
                0xcc..=0xcf => (1 << (m - 0xcc), 0),
                0xd0..=0xd3 => (1 << (m - 0xd0), 0),
                0xd4..=0xd8 => (1 + (1 << (m - 0xd4)), 0),
                0xd9..=0xdb => (self.num(1 << (m - 0xd9))?, 0),
                0xdc | 0xdd => (0, self.num(2 << (m - 0xdc))?),
                0xde | 0xdf => (0, 2 * self.num(2 << (m - 0xde))?),
                _ => return Err(MpFault::Malformed),
            };
            self.take(bytes)?;
            left += values;
        }
        Ok(())
    }
    /// the parts of a value that are there
    fn value(&mut self, t: &'static Ty) -> Result<Got, MpFault> {
        match (&t.kind, t.name.as_str()) {
            (Kind::Leaf, "String") => self.text().map(|_| Got(vec![])),
            (Kind::Leaf, "bool") => match self.num(1)? {
                0xc2 | 0xc3 => Ok(Got(vec![])),
                _ => Err(MpFault::Kind),
            },
            (Kind::Leaf, n @ ("u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i32" | "i64")) => {
                let m = self.num(1)?;
                let i = match m {
                    0..=0x7f => m as i128,
                    0xe0..=0xff => m as u8 as i8 as i128,
                    0xcc..=0xcf => self.num(1 << (m - 0xcc))? as i128,
                    0xd0 => self.num(1)? as i8 as i128,
                    0xd1 => self.num(2)? as i16 as i128,
                    0xd2 => self.num(4)? as i32 as i128,
                    0xd3 => self.num(8)? as i64 as i128,
                    _ => return Err(MpFault::Kind),
                };
                let (lo, hi, _) = int_range(n).unwrap();
                if lo <= i && i <= hi { Ok(Got(vec![])) } else { Err(MpFault::Range) }
            }
            (Kind::Struct(fs), _) => {
                let n = match self.num(1)? {
                    m @ 0x80..=0x8f => m & 15,
                    m @ (0xde | 0xdf) => self.num(2 << (m - 0xde))?,
                    _ => return Err(MpFault::Kind),
                };
                let mut got: Vec<Option<Got>> = fs.iter().map(|_| None).collect();
                for _ in 0..n {
                    let k = self.text()?;
                    match fs.iter().position(|f| f.0 == k) {
                        Some(i) => {
                            let v = self.value(fs[i].1())?;
                            // what was there stays, if it isn't given again
                            got[i] = Some(match got[i].take() {
                                None => v,
                                Some(old) => old.and(v),
                            });
                        }
                        None => self.skip()?,
                    }
                }
                Ok(Got(got))
            }
            _ => Err(MpFault::Unsupported),
        }
    }
}
pub struct Got(Vec<Option<Got>>);
impl Got {
    fn and(self, o: Got) -> Got {
        Got(self
            .0
            .into_iter()
            .zip(o.0)
            .map(|p| match p {
                (Some(a), Some(b)) => Some(a.and(b)),
                (a, b) => a.or(b),
            })
            .collect())
    }
    fn complete(&self) -> bool {
        self.0.iter().all(|x| x.as_ref().is_some_and(Got::complete))
    }
    fn missing(&self, t: &'static Ty, out: &mut Vec<Fault>) {
        let Kind::Struct(fs) = &t.kind else { return };
        for (f, g) in fs.iter().zip(&self.0) {
            if !g.as_ref().is_some_and(Got::complete) {
                missing(t, f.0, out);
            }
            if let Some(g) = g {
                g.missing(f.1(), out);
            }
        }
    }
}
/// The first fault, or the fields that are missing.
pub fn msgpack(t: &'static Ty, b: &[u8]) -> Result<Vec<Fault>, MpFault> {
    let g = Bytes(b).value(t)?;
    let mut out = vec![];
    g.missing(t, &mut out);
    Ok(out)
}
