//! URL-encoded forms and what they mean for a type.
use crate::native::*;
use crate::toml::{Target, read_with};
use crate::universe::*;
use crate::yaml::*;
use crate::{native_struct, native_tuple_struct};
use std::collections::HashMap;
use std::sync::Arc;

/// how a text is written in a form
pub fn encode(s: &str, lex: u8) -> String {
    let mut o = String::new();
    for (i, b) in s.bytes().enumerate() {
        match (b, lex) {
            (b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'_' | b'.', 0..=2) => o.push(b as char),
            (b' ', 0 | 2) => o.push('+'),
            (b'[' | b']', 0) => o.push(b as char),
            (b'%' | b'&' | b'=' | b'+', _) | (_, 1) => o += &format!("%{b:02X}"),
            // as it is
            (_, 2) if s.is_char_boundary(i) => o.push(s[i..].chars().next().unwrap()),
            (_, 2) => {}
            _ => o += &format!("%{b:02x}"),
        }
    }
    o
}
fn decode(s: &[u8]) -> String {
    let hex = |b: Option<&u8>| b.and_then(|b| (*b as char).to_digit(16));
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        match (s[i], hex(s.get(i + 1)), hex(s.get(i + 2))) {
            (b'%', Some(a), Some(b)) => {
                o.push((a * 16 + b) as u8);
                i += 2
            }
            (b'+', ..) => o.push(b' '),
            (b, ..) => o.push(b),
        }
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
pub fn pairs(s: &str) -> Vec<(String, String)> {
    s.as_bytes()
        .split(|b| *b == b'&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let i = p.iter().position(|b| *b == b'=').unwrap_or(p.len());
            (decode(&p[..i]), decode(p.get(i + 1..).unwrap_or(&[])))
        })
        .collect()
}
/// `a[b][c]` as its parts; anything else is a name of its own
pub fn path(k: &str) -> Vec<String> {
    let whole = || vec![k.to_string()];
    let mut out = vec![];
    let mut cur = String::new();
    // 0: in the first part, 1: in brackets, 2: after a bracket
    let mut state = 0;
    for c in k.chars() {
        state = match (state, c) {
            (0 | 2, '[') => {
                if state == 0 {
                    out.push(std::mem::take(&mut cur));
                }
                1
            }
            (1, ']') => {
                out.push(std::mem::take(&mut cur));
                2
            }
            (_, '[' | ']') | (2, _) => return whole(),
            (s, c) => {
                cur.push(c);
                s
            }
        }
    }
    match state {
        0 => whole(),
        2 => out,
        _ => whole(),
    }
}
fn fields(t: &'static Ty, ps: &[(&[String], &str)]) -> Option<Val> {
    let Kind::Struct(fs) = &t.kind else { return None };
    let mut out = vec![];
    for f in fs {
        let name = f.0.trim_start_matches('_');
        let own: Vec<(&[String], &str)> = ps.iter().filter(|p| p.0[0] == name).map(|p| (&p.0[1..], p.1)).collect();
        let sub: Vec<(&[String], &str)> = own.iter().filter(|p| !p.0.is_empty()).cloned().collect();
        let last = own.iter().rev().find(|p| p.0.is_empty());
        out.push(match (last, f.1().name.as_str()) {
            (None, _) if sub.is_empty() => return None,
            (None, _) => fields(f.1(), &sub)?,
            (Some(_), _) if !sub.is_empty() => return None,
            (Some(v), "u64") => Val::I(number(v.1)?),
            (Some(v), "String") => Val::S(v.1.to_string()),
            _ => return None,
        });
    }
    Some(Val::Struct(out))
}
/// The value of type `t` the form denotes, if it fits and the type is supported.
pub fn denote(t: &'static Ty, s: &str) -> Option<Val> {
    let ps: Vec<(Vec<String>, String)> = pairs(s).into_iter().map(|(k, v)| (path(&k), v)).collect();
    fields(t, &ps.iter().map(|(k, v)| (&k[..], &v[..])).collect::<Vec<_>>())
}
/// The pairs a value is written as
pub fn document(t: &'static Ty, v: &Val, key: &str, out: &mut Vec<(String, String)>) {
    match (&t.kind, v) {
        (Kind::Struct(fs), Val::Struct(vs)) => {
            for (f, v) in fs.iter().zip(vs) {
                let n = f.0.trim_start_matches('_');
                document(f.1(), v, &if key.is_empty() { n.to_string() } else { format!("{key}[{n}]") }, out);
            }
        }
        (_, Val::S(s)) => out.push((key.into(), s.clone())),
        (_, Val::I(i)) => out.push((key.into(), i.to_string())),
        (Kind::Option(i), Val::Some(v)) => document(i(), v, key, out),
        (Kind::Pointer(i), v) => document(i(), v, key, out),
        (Kind::List(i) | Kind::Array(i, _), Val::List(v)) => v.iter().for_each(|v| document(i(), v, &format!("{key}[]"), out)),
        (Kind::Map(_, i), Val::Map(m)) => m.iter().for_each(|(k, v)| document(i(), v, &format!("{key}[{}]", if let Val::S(s) = k { s } else { "k" }), out)),
        (_, v) => out.push((key.into(), format!("{v:?}"))),
    }
}
pub fn agree(t: &Target, s: &str) -> Result<bool, String> {
    crate::toml::same(t, s, denote(t.ty, s))
}
fn read<T: Native>(s: &str) -> Result<Option<Val>, String> {
    read_with::<T>(s, |s| {
        let r = facet_urlencoded::from_str::<T>(s).map_err(|e| format!("{e}"));
        // nothing but the input determines the outcome
        if let Err(e) = &r {
            let again = facet_urlencoded::from_str::<T>(s).map_err(|e| format!("{e}"));
            if again.as_ref().err() != Some(e) {
                panic!("refused with {e:?}, then with {:?}", again.err());
            }
        }
        r
    })
}
#[allow(non_snake_case)]
mod ukeys { use super::*;
native_struct!(UKeys { aa: u64, a: String, A: u64, a_b: Y2, c: String });
}
use ukeys::UKeys;
native_tuple_struct!(UTup(0: u64, 1: Y2, 2: String));
native_struct!(UHold { e: YEmpty, a: u64 });
native_struct!(UWide { a: u64, b: u64, c: u64, d: String, e: String });
native_struct!(UNest { a: Y2, b: YOne, c: UNest2 });
native_struct!(UNest2 { a: Y2, c: YTup });

macro_rules! targets {
    ($($t:ty),* $(,)?) => { vec![$(Target { ty: <$t>::ty(), read: read::<$t> }),*] };
}
pub fn targets() -> Vec<Target> {
    targets![
        Y2, Y3, YIn, YDeep, YOne, YEmpty, YHold, YTup, YTups, UKeys, UTup, UHold, UWide, UNest, u64, String, (u64, String), S2, YBad1, YBad2, YBad3, YBad4, YBad5, YBad6, YBad7, YBad8, Vec<u64>, HashMap<String, u64>, E, Option<u64>, Option<Y2>, Arc<Y2>, N2, Deep,
        Z, YWide, YL6,
    ]
}
