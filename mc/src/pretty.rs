//! What pretty-printing a value gives, and types with secrets.
use crate::native::*;
use crate::{native_enum, native_struct};
use facet_pretty::{ColorGenerator, PrettyPrinter};

#[derive(Clone, Copy, Debug)]
pub struct Set {
    pub indent: usize,
    pub depth: Option<usize>,
    pub colors: Option<u8>,
}
impl Set {
    pub fn printer(&self) -> PrettyPrinter {
        let p = PrettyPrinter::new().with_indent_size(self.indent).with_colors(self.colors.is_some());
        let p = match self.depth {
            Some(d) => p.with_max_depth(d),
            None => p,
        };
        match self.colors {
            None | Some(0) => p,
            Some(1) => p.with_color_generator(ColorGenerator::new().with_base_hue(359.9).with_saturation(7.0).with_lightness(-3.0)),
            Some(_) => p.with_color_generator(ColorGenerator::new().with_base_hue(-1e9).with_saturation(0.0).with_lightness(1.0)),
        }
    }
}
pub fn settings() -> Vec<Set> {
    let mut out = vec![];
    for indent in [2, 0, 1, 5] {
        for depth in [None, Some(0), Some(1), Some(2), Some(3), Some(usize::MAX)] {
            for colors in [None, Some(0), Some(1), Some(2)] {
                if colors.unwrap_or(0) < 1 || (indent == 2 && depth.unwrap_or(9) > 2) {
                    out.push(Set { indent, depth, colors });
                }
            }
        }
    }
    out
}
pub fn format(t: &'static Ty, v: &Val, p: &PrettyPrinter) -> String {
    let mut s = String::new();
    (t.with_peek)(v, &mut |peek| s = p.format_peek(peek));
    s
}
/// Is it a sequence of styles and colours (ECMA-48 select graphic rendition, ISO 8613-6 colours)?
pub fn sgr(code: &str) -> bool {
    let mut n = code.split(';').map(|n| n.parse::<u32>().ok());
    while let Some(x) = n.next() {
        let ok = match x {
            Some(38 | 48) => match n.next().flatten() {
                Some(2) => (0..3).all(|_| n.next().flatten().is_some_and(|c| c < 256)),
                Some(5) => n.next().flatten().is_some_and(|c| c < 256),
                _ => false,
            },
            Some(x) => x < 50 || (90..108).contains(&x),
            None => false,
        };
        if !ok {
            return false;
        }
    }
    true
}
/// the text without escape codes, if each run of colour ends before the next one starts
pub fn plain(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut on = false;
    let mut parts = s.split('\x1b');
    out.push_str(parts.next().unwrap());
    for p in parts {
        let (code, rest) = p.strip_prefix('[').and_then(|p| p.split_once('m')).ok_or(format!("not a colour code: {p:?}"))?;
        if code.is_empty() || !code.chars().all(|c| c.is_ascii_digit() || c == ';') {
            return Err(format!("not a colour code: {p:?}"));
        }
        if !sgr(code) {
            return Err(format!("not a colour or style: {code:?}"));
        }
        let reset = code == "0";
        if reset != on {
            return Err(format!("colour {} before {rest:?}", if reset { "reset twice" } else { "set without being reset" }));
        }
        on = !reset;
        out.push_str(rest);
    }
    if on { Err("colour not reset at the end".into()) } else { Ok(out) }
}

// types with secrets, and with docs

native_struct!(P1 { #[facet(sensitive)] secret: String, a: u8 });
native_struct!(P2 { a: u8, #[facet(sensitive)] secret_a: Vec<u8>, b: String, #[facet(sensitive)] secret_b: Option<P1>, c: bool });
native_struct!(P3 { a: P1, #[facet(sensitive)] secret: u64, b: Vec<P1>, c: Option<P1> });
native_struct!(P4 { #[facet(sensitive)] secret_map: std::collections::HashMap<String, u8>, #[facet(sensitive)] secret_arr: [u8; 2], #[facet(sensitive)] secret_pair: (u8, bool), #[facet(sensitive)] secret_e: PE, #[facet(sensitive)] secret_unit: () });
native_struct!(PDoc {
    /// what's public
    a: u8,
    /// what's not
    /// at all
    #[facet(sensitive)]
    secret: String,
    #[facet(sensitive)]
    #[facet(rename = "other")]
    secret_b: Vec<u64>,
});
native_struct!(PAttr {
    #[facet(rename = "b")] #[facet(sensitive)] secret_a: String,
    #[facet(sensitive)] #[facet(default)] secret_b: u64,
    #[facet(default)] #[facet(sensitive)] #[facet(rename = "c")] secret_c: Option<u8>,
    #[facet(positional)] #[facet(sensitive)] /** doc */ secret_d: Vec<u8>,
    #[facet(rename = "z")] #[facet(default)] open: u8,
});
native_enum!(#[repr(C)] PAttrE {
    A { #[facet(rename = "b")] #[facet(sensitive)] secret_a: String, #[facet(rename = "secret")] open: u8 },
    B(_0: u8, #[facet(named, short = 'c')] #[facet(sensitive)] /** doc */ _1: u64),
});
native_struct!(PTree { #[facet(sensitive)] secret: String, kids: Vec<PTree>, v: u8 });
native_enum!(#[repr(u8)] PE {
    A,
    B(#[facet(sensitive)] _0: String),
    C(_0: u8, #[facet(sensitive)] _1: u64, _2: P1),
    D { #[facet(sensitive)] secret: P1, a: u8 },
    E { a: Vec<P1>, #[facet(sensitive)] secret: u8 },
    F(_0: PTup),
    G { #[facet(sensitive)] secret_a: Vec<u8>, #[facet(sensitive)] secret_b: Option<bool> },
});
native_enum!(#[repr(C)] PC {
    /// secret of C
    X {
        /// on the field
        #[facet(sensitive)] secret: String
    },
    Y(#[facet(sensitive)] _0: [u8; 2], _1: u8),
});
#[derive(facet::Facet, Debug, Clone, PartialEq)]
pub struct PTup(u8, #[facet(sensitive)] String, P1);
impl Native for PTup {
    fn make(v: &Val) -> Self {
        let Val::Struct(f) = v else { panic!("bad val {v:?}") };
        PTup(Native::make(&f[0]), Native::make(&f[1]), Native::make(&f[2]))
    }
    fn unmake(&self) -> Val {
        Val::Struct(vec![self.0.unmake(), self.1.unmake(), self.2.unmake()])
    }
    fn describe() -> Desc {
        desc("PTup", Kind::Struct(vec![("0", u8::ty), ("1", String::ty), ("2", P1::ty)]))
    }
}
native_struct!(
    /// A documented struct
    ///
    ///   of three lines
    DS {
        /// the first field
        a: u8,
        b: DIn,
        /// third
        ///
        /// field
        c: Vec<DIn>,
        d: DE
    }
);
native_struct!(
    /// inner
    DIn { /// x
    x: Option<u8> }
);
native_enum!(
    #[repr(u8)]
    /// A documented enum
    DE {
        /// the first
        /// variant
        A,
        /// the second
        B(/// zeroth
          _0: u8, _1: DIn),
        C { /// ex
            x: u8,
            y: Vec<u8>,
            /// zed
            /// zed
            z: () }
    }
);
native_enum!(#[repr(u8)] Empties { EmptyT(), EmptyS {}, Unit, One(_0: UnitIn), Two { a: UnitIn, b: UnitIn } });
native_struct!(UnitIn {});
native_struct!(Zs { a: UnitIn, b: Zs1, c: () });
native_struct!(Zs1 { a: UnitIn, b: Zs2, c: () });
native_struct!(Zs2 { a: UnitIn, b: Zs3, c: () });
native_struct!(Zs3 { a: UnitIn, b: (UnitIn, ()), n: u8, c: (), d: Vec<UnitIn> });

native_struct!(PComb1 { #[facet(sensitive, rename = "r1")] secret: String });
native_struct!(PComb2 { #[facet(rename = "r1", sensitive)] secret: String });
native_struct!(PComb3 { #[facet(default, sensitive)] secret: String });
native_struct!(PComb4 { #[facet(sensitive, default)] secret: String });

pub fn docs(t: &Ty) -> &'static [&'static str] {
    match t.name.as_str() {
        "DS" => &[" A documented struct", "", "   of three lines"],
        "DIn" => &[" inner"],
        "DE" => &[" A documented enum"],
        _ => &[],
    }
}
pub fn variant_docs(t: &Ty, i: usize) -> &'static [&'static str] {
    match (t.name.as_str(), i) {
        ("DE", 0) => &[" the first", " variant"],
        ("DE", 1) => &[" the second"],
        ("PC", 0) => &[" secret of C"],
        _ => &[],
    }
}
pub fn field_docs(t: &Ty, f: &str) -> &'static [&'static str] {
    match (t.name.as_str(), f) {
        ("DS", "a") => &[" the first field"],
        ("DS", "c") => &[" third", "", " field"],
        ("DIn", "x") => &[" x"],
        ("DE", "_0") => &[" zeroth"],
        ("DE", "x") => &[" ex"],
        ("DE", "z") => &[" zed", " zed"],
        ("PDoc", "a") => &[" what's public"],
        ("PDoc", "secret") => &[" what's not", " at all"],
        ("PC", "secret") => &[" on the field"],
        ("PAttr", "secret_d") | ("PAttrE", "_1") => &[" doc "],
        _ => &[],
    }
}
pub fn sensitive(t: &Ty, variant: Option<usize>, i: usize) -> bool {
    t.fields(variant)[i].0.starts_with("secret") || matches!((t.name.as_str(), variant, i), ("PTup", None, 1) | ("PE", Some(1), 0) | ("PE", Some(2), 1) | ("PC", Some(1), 0) | ("PAttrE", Some(1), 1))
}
/// whether a value of the type may hold a secret
pub fn holds_secrets(t: &'static Ty) -> bool {
    t.closure().iter().any(|t| match &t.kind {
        Kind::Struct(f) => (0..f.len()).any(|i| sensitive(t, None, i)),
        Kind::Enum(v) => v.iter().enumerate().any(|(k, v)| (0..v.1.len()).any(|i| sensitive(t, Some(k), i))),
        _ => false,
    })
}
fn tuple_variant(name: &str, fields: &[(&'static str, TyFn)]) -> bool {
    name == "EmptyT" || fields.first().is_some_and(|f| f.0.starts_with('_'))
}
fn leaf(t: &Ty, v: &Val) -> String {
    match v {
        Val::B(b) => b.to_string(),
        Val::I(i) if t.name == "u128" => (*i as u128).to_string(),
        Val::I(i) => i.to_string(),
        Val::F(b) if t.name == "f32" => (f64::from_bits(*b) as f32).to_string(),
        Val::F(b) => f64::from_bits(*b).to_string(),
        Val::C(c) => c.to_string(),
        Val::S(s) => s.clone(),
        _ => unreachable!("{v:?}"),
    }
}
/// the name a type is printed with
pub fn type_name(t: &Ty) -> String {
    match &t.kind {
        Kind::Option(i) => format!("Option<{}>", type_name(i())),
        Kind::List(i) => format!("Vec<{}>", type_name(i())),
        Kind::Map(k, v) => format!("{}<{}, {}>", t.name.split('<').next().unwrap(), type_name(k()), type_name(v())),
        Kind::Array(i, n) => format!("[{}; {n}]", type_name(i())),
        Kind::Pointer(i) => format!("Arc<{}>", type_name(i())),
        Kind::Struct(f) if t.name.ends_with("-tuple") => format!("({})", f.iter().map(|f| type_name(f.1())).collect::<Vec<_>>().join(", ")),
        _ => t.name.clone(),
    }
}
/// the text of a value, without colours; None: not specified
pub fn render(t: &'static Ty, v: &Val, set: &Set) -> Option<String> {
    let mut s = String::new();
    at(t, v, set, 0, &mut s)?;
    Some(s)
}
fn pad(set: &Set, depth: usize, s: &mut String) {
    s.extend(std::iter::repeat_n(' ', set.indent * depth));
}
fn at(t: &'static Ty, v: &Val, set: &Set, depth: usize, s: &mut String) -> Option<()> {
    let tn = type_name(t);
    if set.depth.is_some_and(|d| depth > d) {
        s.push_str("[...]");
        return Some(());
    }
    let heading = |d: &[&str], s: &mut String| d.iter().for_each(|l| s.push_str(&format!("///{l}\n")));
    match (&t.kind, v) {
        (Kind::Leaf, _) if t.name == "()" => s.push_str("()"),
        (Kind::Leaf, _) => s.push_str(&leaf(t, v)),
        (Kind::Option(_), Val::None) => s.push_str(&format!("{}::None", tn)),
        (Kind::Option(inner), Val::Some(v)) => {
            s.push_str(&format!("{}::Some(", tn));
            at(inner(), v, set, depth, s)?;
            s.push(')');
        }
        (Kind::Struct(fields), Val::Struct(vs)) => {
            heading(docs(t), s);
            s.push_str(&format!("{} {{", tn));
            if !fields.is_empty() {
                s.push('\n');
            }
            for (i, ((f, ft), v)) in fields.iter().zip(vs).enumerate() {
                let d = field_docs(t, f);
                if i > 0 && !d.is_empty() {
                    s.push('\n');
                }
                for l in d {
                    pad(set, depth + 1, s);
                    s.push_str(&format!("///{l}\n"));
                }
                pad(set, depth + 1, s);
                s.push_str(&format!("{}: ", f));
                if sensitive(t, None, i) {
                    s.push_str("[REDACTED]");
                } else {
                    at(ft(), v, set, depth + 1, s)?;
                }
                s.push_str(",\n");
            }
            if !fields.is_empty() {
                pad(set, depth, s);
            }
            s.push('}');
        }
        (Kind::List(inner), Val::List(vs)) if inner().name == "u8" => {
            s.push_str(&format!("{}\n ", tn));
            for (i, v) in vs.iter().enumerate() {
                let Val::I(b) = v else { unreachable!() };
                if i > 0 && i % 16 == 0 {
                    s.push('\n');
                    pad(set, depth + 1, s);
                } else {
                    s.push(' ');
                }
                s.push_str(&format!("{b:02x}"));
            }
            pad(set, depth, s);
        }
        (Kind::List(inner), Val::List(vs)) => {
            s.push_str(&format!("{} [\n", tn));
            for v in vs {
                pad(set, depth + 1, s);
                at(inner(), v, set, depth + 1, s)?;
                s.push_str(",\n");
            }
            pad(set, depth, s);
            s.push(']');
        }
        (Kind::Map(..), Val::Map(_)) => {
            s.push_str(&format!("{} {{\n", tn));
            pad(set, depth + 1, s);
            s.push_str("/* Map contents */\n");
            pad(set, depth, s);
            s.push('}');
        }
        (Kind::Enum(variants), Val::Enum(k, vs)) => {
            heading(docs(t), s);
            heading(variant_docs(t, *k), s);
            let (vn, fields) = &variants[*k];
            s.push_str(&format!("{}::{vn}", tn));
            let tuple = tuple_variant(vn, fields);
            if fields.is_empty() {
                s.push_str(if tuple { "()" } else if *vn == "EmptyS" { " { }" } else { "" });
                return Some(());
            }
            s.push_str(if tuple { "(\n" } else { " {\n" });
            for (i, ((f, ft), v)) in fields.iter().zip(vs).enumerate() {
                pad(set, depth + 1, s);
                for l in field_docs(t, f) {
                    s.push_str(&format!("///{l}\n"));
                    pad(set, depth + 1, s);
                }
                if !tuple {
                    s.push_str(&format!("{}: ", f));
                }
                if sensitive(t, Some(*k), i) {
                    s.push_str("[REDACTED]");
                } else {
                    at(ft(), v, set, depth + 1, s)?;
                }
                s.push_str(",\n");
            }
            pad(set, depth, s);
            s.push(if tuple { ')' } else { '}' });
        }
        _ => return None,
    }
    Some(())
}
/// how many secrets are printed as redacted
pub fn markers(t: &'static Ty, v: &Val, set: &Set, depth: usize) -> usize {
    if set.depth.is_some_and(|d| depth > d) {
        return 0;
    }
    let fields = |variant: Option<usize>, vs: &[Val]| {
        let f = t.fields(variant);
        (0..f.len()).map(|i| if sensitive(t, variant, i) { 1 } else { markers(f[i].1(), &vs[i], set, depth + 1) }).sum()
    };
    match (&t.kind, v) {
        (Kind::Option(i), Val::Some(v)) => markers(i(), v, set, depth),
        (Kind::Struct(_), Val::Struct(vs)) => fields(None, vs),
        (Kind::Enum(_), Val::Enum(k, vs)) => fields(Some(*k), vs),
        (Kind::List(i), Val::List(vs)) => vs.iter().map(|v| markers(i(), v, set, depth + 1)).sum(),
        // as a whole
        (Kind::Array(..) | Kind::Pointer(_), _) => holds_secrets(t) as usize,
        _ => 0,
    }
}
/// the same value with other secrets
pub fn with_secrets(t: &'static Ty, v: &Val, of: &dyn Fn(&'static Ty) -> Val) -> Val {
    let fields = |variant: Option<usize>, vs: &[Val]| {
        let f = t.fields(variant);
        (0..f.len()).map(|i| if sensitive(t, variant, i) { of(f[i].1()) } else { with_secrets(f[i].1(), &vs[i], of) }).collect()
    };
    match (&t.kind, v) {
        (Kind::Option(i), Val::Some(v)) => Val::Some(Box::new(with_secrets(i(), v, of))),
        (Kind::Struct(_), Val::Struct(vs)) => Val::Struct(fields(None, vs)),
        (Kind::Enum(_), Val::Enum(k, vs)) => Val::Enum(*k, fields(Some(*k), vs)),
        (Kind::List(i) | Kind::Array(i, _), Val::List(vs)) => Val::List(vs.iter().map(|v| with_secrets(i(), v, of)).collect()),
        (Kind::Map(_, i), Val::Map(m)) => Val::Map(m.iter().map(|(k, v)| (k.clone(), with_secrets(i(), v, of))).collect()),
        (Kind::Pointer(i), v) => with_secrets(i(), v, of),
        _ => v.clone(),
    }
}
