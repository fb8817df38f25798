//! What is wrong with a text as JSON for a type, and where: an independent reader that stops at the first fault.
use crate::json::{self, AttrsFn};
use crate::native::*;

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    /// not JSON: the byte that can't be there (or the end)
    Syntax(usize),
    /// the value is not of the type
    Misfit,
    /// the number is not of the type
    Number { text: String, string: bool },
    /// an object without these
    Missing(Vec<&'static str>),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub struct Fault {
    pub what: What,
    /// where the error may point: from, to (inclusive)
    pub lo: usize,
    pub hi: usize,
    /// the value concerned (either will do)
    pub paths: Vec<String>,
}
pub enum Stop {
    Fault(Fault),
    /// no expectation
    Unsure,
}
type R<T> = Result<T, Stop>;

struct P<'a> {
    s: &'a [u8],
    i: usize,
    attrs: AttrsFn,
}
/// `Ok`: nothing wrong
pub fn fault(t: &'static Ty, s: &[u8], attrs: AttrsFn) -> Result<(), Stop> {
    let mut p = P { s, i: 0, attrs };
    p.ws();
    p.value(Some(t), &["$".into()])?;
    p.ws();
    if p.i < s.len() { p.syntax(p.i, &["$"]) } else { Ok(()) }
}
impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.s.get(self.i), Some(0x20 | 0x09 | 0x0a | 0x0d)) {
            self.i += 1
        }
    }
    fn syntax<T>(&self, lo: usize, paths: &[&str]) -> R<T> {
        let end = self.s.len();
        Err(Stop::Fault(Fault { what: What::Syntax(self.i), lo, hi: (self.i + 1).min(end), paths: paths.iter().map(|p| p.to_string()).collect() }))
    }
    fn wrong<T>(&self, what: What, lo: usize, hi: usize, path: &str) -> R<T> {
        Err(Stop::Fault(Fault { what, lo, hi, paths: vec![path.to_string()] }))
    }
    /// The value at the next byte, there being no white space before. `paths`: its path, then others that may be said if it's not there at all
    fn value(&mut self, t: Option<&'static Ty>, paths: &[String]) -> R<()> {
        let path = &paths[0];
        let any: Vec<&str> = paths.iter().map(|p| p.as_str()).collect();
        let start = self.i;
        let Some(c) = self.s.get(self.i).copied() else { return self.syntax(start, &any) };
        // options are what they contain
        let mut inner = t;
        let mut optional = false;
        while let Some(Kind::Option(i)) = inner.map(|t| &t.kind) {
            inner = Some(i());
            optional = true;
        }
        match c {
            b'{' => {
                if let Some(t) = inner {
                    if !t.is_struct() {
                        return self.wrong(What::Misfit, start, start + 1, path);
                    }
                }
                self.object(inner, path)
            }
            b'[' => {
                let of = match inner.map(|t| &t.kind) {
                    None => None,
                    Some(Kind::List(i)) => Some(i()),
                    _ => return self.wrong(What::Misfit, start, start + 1, path),
                };
                self.i += 1;
                self.ws();
                if self.s.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(());
                }
                for n in 0.. {
                    let p = if t.is_some() { format!("{path}[{n}]") } else { path.clone() };
                    self.value(of, &[p.clone(), path.clone()])?;
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            break;
                        }
                        _ => return self.syntax(self.i, &[path, &p]),
                    }
                    self.ws();
                }
                Ok(())
            }
            b'"' => {
                let s = self.string(&any[..1])?;
                match inner {
                    None => Ok(()),
                    Some(t) if matches!(t.kind, Kind::Leaf) && t.parse.is_some_and(|f| f(&s).is_some()) => Ok(()),
                    Some(_) => self.wrong(What::Misfit, start, self.i, path),
                }
            }
            b'-' | b'0'..=b'9' => {
                self.number(&any[..1])?;
                let text = std::str::from_utf8(&self.s[start..self.i]).unwrap().to_string();
                match inner {
                    None => Ok(()),
                    Some(t) if json::denote(t, &json::Doc::Num(text.clone()), self.attrs).is_some() => Ok(()),
                    Some(t) => self.wrong(What::Number { text, string: t.name == "String" }, start, self.i, path),
                }
            }
            b't' | b'f' | b'n' => {
                let word: &[u8] = match c {
                    b't' => b"true",
                    b'f' => b"false",
                    _ => b"null",
                };
                let n = word.iter().zip(&self.s[start..]).take_while(|(a, b)| a == b).count();
                self.i += n;
                if n < word.len() {
                    return self.syntax(start, &any[..1]);
                }
                match inner {
                    None => Ok(()),
                    Some(_) if c == b'n' && optional => Ok(()),
                    Some(t) if c != b'n' && t.name == "bool" => Ok(()),
                    Some(_) => self.wrong(What::Misfit, start, self.i, path),
                }
            }
            _ => self.syntax(start, &any),
        }
    }
    fn object(&mut self, t: Option<&'static Ty>, path: &str) -> R<()> {
        let start = self.i;
        let fs = t.map(|t| t.fields(None)).unwrap_or(&[]);
        let a = t.map(|t| (self.attrs)(t)).unwrap_or_default();
        let mut seen = vec![false; fs.len()];
        self.i += 1;
        self.ws();
        if self.s.get(self.i) == Some(&b'}') {
            self.i += 1;
        } else {
            loop {
                self.ws();
                let at = self.i;
                if self.s.get(at) != Some(&b'"') {
                    return self.syntax(at, &[path]);
                }
                let k = self.string(&[path])?;
                let f = (fs.iter().position(|f| a.renames.iter().any(|r| r.0 == f.0 && r.1 == k))).or_else(|| fs.iter().position(|f| f.0 == k));
                if f.is_none() && t.is_some() && a.deny {
                    return self.wrong(What::Unknown(k), at, self.i, path);
                }
                let p = f.map(|f| format!("{path}.{}", fs[f].0)).unwrap_or(path.to_string());
                self.ws();
                if self.s.get(self.i) != Some(&b':') {
                    return self.syntax(self.i, &[path, &p]);
                }
                self.i += 1;
                self.ws();
                match f {
                    None => self.value(None, &[path.to_string()])?,
                    Some(f) => {
                        // an object given again may have the members it had before
                        if seen[f] {
                            return Err(Stop::Unsure);
                        }
                        self.value(Some(fs[f].1()), &[p.clone()])?;
                        seen[f] = true;
                    }
                }
                self.ws();
                match self.s.get(self.i) {
                    Some(b',') => self.i += 1,
                    Some(b'}') => {
                        self.i += 1;
                        break;
                    }
                    _ => return self.syntax(self.i, &[path, &p]),
                }
            }
        }
        if a.default.is_none() {
            let missing: Vec<&'static str> = (fs.iter().zip(&seen)).filter(|(f, s)| !**s && !a.defaults.iter().any(|d| d.0 == f.0)).map(|(f, _)| f.0).collect();
            if !missing.is_empty() {
                return self.wrong(What::Missing(missing), start, self.i, path);
            }
        }
        Ok(())
    }
    fn number(&mut self, paths: &[&str]) -> R<()> {
        let start = self.i;
        let digits = |p: &mut Self| {
            let from = p.i;
            while p.s.get(p.i).is_some_and(|c| c.is_ascii_digit()) {
                p.i += 1
            }
            if p.i == from { p.syntax(start, paths) } else { Ok(()) }
        };
        if self.s[self.i] == b'-' {
            self.i += 1;
        }
        if self.s.get(self.i) == Some(&b'0') {
            self.i += 1;
        } else {
            digits(self)?;
        }
        if self.s.get(self.i) == Some(&b'.') {
            self.i += 1;
            digits(self)?;
        }
        if matches!(self.s.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.s.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            digits(self)?;
        }
        Ok(())
    }
    fn string(&mut self, paths: &[&str]) -> R<String> {
        let start = self.i;
        // as long as that's a string, `json` knows
        let mut i = start + 1;
        let mut escape = 0;
        while let Some(c) = self.s.get(i) {
            match (*c, escape) {
                (_, 1) => escape = 0,
                (b'\\', _) => escape = 1,
                (b'"', _) => break,
                (0..=0x1f, _) => break,
                _ => {}
            }
            i += 1;
        }
        let closed = self.s.get(i) == Some(&b'"');
        if closed {
            if let Some(json::Doc::Str(s)) = json::parse(&self.s[start..=i]) {
                self.i = i + 1;
                return Ok(s);
            }
        }
        // somewhere in the string
        self.i = i;
        self.syntax(start, paths)
    }
}
