//! An independent JSON parser (RFC 8259), and what documents mean for each type.
use crate::native::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Null,
    Bool(bool),
    /// as written
    Num(String),
    Str(String),
    Arr(Vec<Doc>),
    Obj(Vec<(String, Doc)>),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}
type R<T> = Option<T>;
pub fn parse(s: &[u8]) -> R<Doc> {
    let mut p = P { s, i: 0 };
    let d = p.value(0)?;
    p.ws();
    (p.i == s.len()).then_some(d)
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], 0x20 | 0x09 | 0x0a | 0x0d) {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        // 0 is in no token
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &[u8]) -> R<()> {
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self, depth: usize) -> R<Doc> {
        if depth > 3000 {
            return None;
        }
        self.ws();
        Some(match self.peek() {
            b'n' => {
                self.eat(b"null")?;
                Doc::Null
            }
            b't' => {
                self.eat(b"true")?;
                Doc::Bool(true)
            }
            b'f' => {
                self.eat(b"false")?;
                Doc::Bool(false)
            }
            b'"' => Doc::Str(self.string()?),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b"]").is_some() {
                    return Some(Doc::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    if self.eat(b"]").is_some() {
                        return Some(Doc::Arr(v));
                    }
                    self.eat(b",")?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b"}").is_some() {
                    return Some(Doc::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b":")?;
                    v.push((k, self.value(depth + 1)?));
                    self.ws();
                    if self.eat(b"}").is_some() {
                        return Some(Doc::Obj(v));
                    }
                    self.eat(b",")?;
                }
            }
            _ => {
                let start = self.i;
                let _ = self.eat(b"-");
                if self.eat(b"0").is_none() {
                    self.digits()?;
                }
                if self.eat(b".").is_some() {
                    self.digits()?;
                }
                if self.eat(b"e").or_else(|| self.eat(b"E")).is_some() {
                    let _ = self.eat(b"+").or_else(|| self.eat(b"-"));
                    self.digits()?;
                }
                Doc::Num(String::from_utf8(self.s[start..self.i].to_vec()).ok()?)
            }
        })
    }
    fn digits(&mut self) -> R<()> {
        let start = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1
        }
        (self.i > start).then_some(())
    }
    fn hex4(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = match self.peek() {
                c @ b'0'..=b'9' => c - b'0',
                c @ b'a'..=b'f' => c - b'a' + 10,
                c @ b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v << 4 | d as u32;
            self.i += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> R<String> {
        self.eat(b"\"")?;
        let mut out: Vec<u8> = vec![];
        loop {
            if self.i >= self.s.len() {
                return None;
            }
            match self.peek() {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(out).ok();
                }
                0..=0x1f => return None,
                b'\\' => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    let ch = match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\x08',
                        b'f' => '\x0c',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let hi = self.hex4()?;
                            let mut code = hi;
                            if hi & 0xfc00 == 0xd800 {
                                self.eat(b"\\u")?;
                                let lo = self.hex4()?;
                                if lo & 0xfc00 != 0xdc00 {
                                    return None;
                                }
                                code = 0x10000 + ((hi & 0x3ff) << 10 | lo & 0x3ff);
                            }
                            char::from_u32(code)?
                        }
                        _ => return None,
                    };
                    out.extend(ch.to_string().bytes());
                }
                c => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

/// The integer a JSON number denotes, if it's one of less than 39 digits.
pub fn integer(n: &str) -> Option<i128> {
    let (neg, n) = match n.strip_prefix('-') {
        Some(n) => (true, n),
        None => (false, n),
    };
    let n = n.to_ascii_lowercase();
    let (m, e) = n.split_once('e').unwrap_or((&n, "0"));
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let mut digits: Vec<u8> = i.bytes().chain(f.bytes()).map(|b| b - b'0').collect();
    while digits.first() == Some(&0) {
        digits.remove(0);
    }
    if digits.is_empty() {
        return Some(0);
    }
    // an exponent of more digits than this is out of any range
    let (eneg, edigits) = match e.as_bytes()[0] {
        b'-' => (true, &e[1..]),
        b'+' => (false, &e[1..]),
        _ => (false, e),
    };
    let edigits = edigits.trim_start_matches('0');
    if edigits.len() > 9 {
        return None;
    }
    let e: i64 = if edigits.is_empty() { 0 } else { edigits.parse().unwrap() };
    let mut shift = if eneg { -e } else { e } - f.len() as i64;
    while shift < 0 && digits.last() == Some(&0) {
        digits.pop();
        shift += 1;
    }
    if shift < 0 || digits.len() as i64 + shift > 38 {
        return None;
    }
    let mut v: i128 = 0;
    for d in digits {
        v = v * 10 + d as i128;
    }
    for _ in 0..shift {
        v *= 10;
    }
    Some(if neg { -v } else { v })
}

/// What is said on a type besides its fields.
#[derive(Default, Clone)]
pub struct Attrs {
    pub deny: bool,
    /// the container's default
    pub default: Option<Val>,
    /// field, name
    pub renames: Vec<(&'static str, &'static str)>,
    /// field, its default
    pub defaults: Vec<(&'static str, Val)>,
    /// fields that are secret
    pub sensitive: Vec<&'static str>,
}
pub type AttrsFn = fn(&Ty) -> Attrs;
impl Attrs {
    pub fn name(&self, f: &'static str) -> &'static str {
        self.renames.iter().find(|r| r.0 == f).map(|r| r.1).unwrap_or(f)
    }
}

pub fn int_range(name: &str) -> Option<(i128, i128, bool)> {
    let (nz, n) = match name.strip_prefix("NonZero<") {
        Some(n) => (true, n.trim_end_matches('>')),
        None => (false, name),
    };
    let bits = match n.trim_start_matches(['u', 'i']) {
        "8" => 8,
        "16" => 16,
        "32" => 32,
        "64" | "size" => 64,
        _ => return None,
    };
    Some(if n.starts_with('u') { (0, (1i128 << bits) - 1, nz) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1, nz) })
}

/// The value of type `t` the document denotes, if it fits. Of members given several times the last one counts.
pub fn denote(t: &'static Ty, d: &Doc, attrs: AttrsFn) -> Option<Val> {
    denote_as(t, d, attrs, false)
}
/// The same, an object given several times being understood as having the members of all of them.
pub fn denote_merged(t: &'static Ty, d: &Doc, attrs: AttrsFn) -> Option<Val> {
    denote_as(t, d, attrs, true)
}
fn denote_as(t: &'static Ty, d: &Doc, attrs: AttrsFn, merge: bool) -> Option<Val> {
    let denote = |t: &'static Ty, d: &Doc, attrs: AttrsFn| denote_as(t, d, attrs, merge);
    match (&t.kind, d) {
        (Kind::Option(_), Doc::Null) => Some(Val::None),
        (Kind::Option(i), d) => denote(i(), d, attrs).map(|v| Val::Some(Box::new(v))),
        (Kind::Leaf, Doc::Str(s)) => (t.parse?)(s),
        (Kind::Leaf, Doc::Bool(b)) => (t.name == "bool").then_some(Val::B(*b)),
        (Kind::Leaf, Doc::Num(n)) => {
            if let Some((lo, hi, nz)) = int_range(&t.name) {
                return integer(n).filter(|i| lo <= *i && *i <= hi && !(nz && *i == 0)).map(Val::I);
            }
            match t.name.as_str() {
                "f64" => n.parse::<f64>().ok().filter(|x| x.is_finite()).map(|x| Val::F(x.to_bits())),
                "f32" => n.parse::<f32>().ok().filter(|x| x.is_finite()).map(|x| Val::F((x as f64).to_bits())),
                _ => None,
            }
        }
        (Kind::List(i), Doc::Arr(v)) => v.iter().map(|d| denote(i(), d, attrs)).collect::<Option<_>>().map(Val::List),
        (Kind::Struct(fs), Doc::Obj(ms)) => {
            let a = attrs(t);
            let mut vals: Vec<Option<Val>> = vec![None; fs.len()];
            let mut earlier: Vec<Vec<(String, Doc)>> = vec![vec![]; fs.len()];
            for (k, d) in ms {
                let i = fs
                    .iter()
                    .position(|f| a.renames.iter().any(|r| r.0 == f.0 && r.1 == k))
                    .or_else(|| fs.iter().position(|f| f.0 == k));
                match i {
                    Some(i) => match (&fs[i].1().kind, d) {
                        (Kind::Struct(_), Doc::Obj(m)) if merge => {
                            earlier[i].extend(m.iter().cloned());
                            vals[i] = Some(denote(fs[i].1(), &Doc::Obj(earlier[i].clone()), attrs)?);
                        }
                        _ => vals[i] = Some(denote(fs[i].1(), d, attrs)?),
                    },
                    None if a.deny => return None,
                    None => {}
                }
            }
            let mut out = vec![];
            for (i, v) in vals.into_iter().enumerate() {
                out.push(match v {
                    Some(v) => v,
                    None => match (&a.default, a.defaults.iter().find(|x| x.0 == fs[i].0)) {
                        (Some(Val::Struct(d)), _) => d[i].clone(),
                        (_, Some((_, v))) => v.clone(),
                        _ => return None,
                    },
                });
            }
            Some(Val::Struct(out))
        }
        _ => None,
    }
}

/// The document a value is written as. `None` if it has none.
pub fn document(t: &'static Ty, v: &Val, attrs: AttrsFn) -> Option<Doc> {
    Some(match (&t.kind, v) {
        (Kind::Option(_), Val::None) => Doc::Null,
        (Kind::Option(i), Val::Some(v)) => document(i(), v, attrs)?,
        (Kind::Leaf, v) => match (t.name.as_str(), v) {
            ("u128" | "i128" | "char" | "()", _) => return None,
            (_, Val::B(b)) => Doc::Bool(*b),
            (_, Val::I(i)) => Doc::Num(i.to_string()),
            (n, Val::F(b)) => {
                let x = f64::from_bits(*b);
                // there's no notation for these
                if !x.is_finite() {
                    return Some(Doc::Null);
                }
                Doc::Num(if n == "f32" { format!("{:e}", x as f32) } else { format!("{x:e}") })
            }
            (_, Val::S(s)) => Doc::Str(s.clone()),
            _ => return None,
        },
        (Kind::List(i), Val::List(v)) => Doc::Arr(v.iter().map(|v| document(i(), v, attrs)).collect::<Option<_>>()?),
        (Kind::Map(k, e), Val::Map(m)) => {
            let mut out = vec![];
            for (kv, v) in m {
                let k = match (k().kind.clone(), kv) {
                    (Kind::Leaf, Val::S(s)) => s.clone(),
                    (Kind::Leaf, Val::I(i)) => i.to_string(),
                    (Kind::Leaf, Val::B(b)) => b.to_string(),
                    (Kind::Leaf, Val::C(c)) => c.to_string(),
                    _ => return None,
                };
                out.push((k, document(e(), v, attrs)?));
            }
            Doc::Obj(out)
        }
        (Kind::Struct(fs), Val::Struct(vs)) => Doc::Obj(members(t, fs, vs, attrs)?),
        (Kind::Enum(vars), Val::Enum(i, vs)) => {
            let (name, fs) = &vars[*i];
            let name = name.to_string();
            let tuple = fs.iter().all(|f| f.0.starts_with('_'));
            if fs.is_empty() {
                return Some(Doc::Str(name));
            }
            let body = if !tuple {
                Doc::Obj(members(t, fs, vs, attrs)?)
            } else if fs.len() == 1 {
                document(fs[0].1(), &vs[0], attrs)?
            } else {
                Doc::Arr(fs.iter().zip(vs).map(|(f, v)| document(f.1(), v, attrs)).collect::<Option<_>>()?)
            };
            Doc::Obj(vec![(name, body)])
        }
        _ => return None,
    })
}
fn members(t: &Ty, fs: &[(&'static str, TyFn)], vs: &[Val], attrs: AttrsFn) -> Option<Vec<(String, Doc)>> {
    let a = attrs(t);
    fs.iter().zip(vs).map(|(f, v)| Some((a.name(f.0).to_string(), document(f.1(), v, attrs)?))).collect()
}

/// Numbers compared by what they denote, members of maps in any order where `unordered`.
pub fn same(t: &'static Ty, got: &Doc, want: &Doc) -> bool {
    match (&t.kind, got, want) {
        (Kind::Option(_), Doc::Null, Doc::Null) => true,
        (Kind::Option(i), g, w) => same(i(), g, w),
        (Kind::Leaf, Doc::Num(g), Doc::Num(w)) => match t.name.as_str() {
            // the shortest notation of a float isn't unique
            "f64" => g.parse::<f64>().unwrap().to_bits() == w.parse::<f64>().unwrap().to_bits(),
            "f32" => g.parse::<f32>().unwrap().to_bits() == w.parse::<f32>().unwrap().to_bits(),
            _ => integer(g).is_some() && integer(g) == integer(w),
        },
        (Kind::List(i), Doc::Arr(g), Doc::Arr(w)) => g.len() == w.len() && g.iter().zip(w).all(|(g, w)| same(i(), g, w)),
        (Kind::Map(_, e), Doc::Obj(g), Doc::Obj(w)) => {
            g.len() == w.len() && w.iter().all(|(k, w)| g.iter().filter(|(gk, _)| gk == k).count() == 1 && g.iter().any(|(gk, g)| gk == k && same(e(), g, w)))
        }
        (Kind::Struct(f), Doc::Obj(g), Doc::Obj(w)) => same_members(f, g, w),
        (Kind::Enum(vars), Doc::Obj(g), Doc::Obj(w)) => {
            if g.len() != 1 || g[0].0 != w[0].0 {
                return false;
            }
            let (_, fs) = vars.iter().find(|v| v.0 == w[0].0).unwrap();
            match (&g[0].1, &w[0].1) {
                (Doc::Obj(g), Doc::Obj(w)) if !fs[0].0.starts_with('_') => same_members(fs, g, w),
                (g, w) if fs.len() == 1 => same(fs[0].1(), g, w),
                (Doc::Arr(g), Doc::Arr(w)) => g.len() == w.len() && fs.iter().zip(g.iter().zip(w)).all(|(f, (g, w))| same(f.1(), g, w)),
                _ => false,
            }
        }
        (_, g, w) => g == w,
    }
}
fn same_members(f: &[(&'static str, TyFn)], g: &[(String, Doc)], w: &[(String, Doc)]) -> bool {
    g.len() == w.len() && f.iter().zip(g.iter().zip(w)).all(|(f, (g, w))| g.0 == w.0 && same(f.1(), &g.1, &w.1))
}
