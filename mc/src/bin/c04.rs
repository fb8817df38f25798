use mc::progs::*;
use mc::*;

const HEADER: &str = "use facet::Facet;\nuse mc::layout::R;\nuse mc::attrs::{A, F, I};\nuse std::sync::Arc;\n#[derive(Default, Debug)] pub struct NoFacet;\npub fn mk_u32() -> u32 { 4242 }\npub mod inner { pub fn mk() -> String { \"made\".into() } }\n";

fn main() {
    if let Some(thorough) = parent() {
        prepare("c04", HEADER, &programs(thorough));
    }
    mc::main(Check {
        id: "C04",
        level: "model_checking",
        rule: "every program of an enumerated family of attribute and doc comment placements (all sequences of attributes on one field; all pairs of attributes on two fields of each kind of struct and variant; all sequences of container attributes on each kind of type; docs on variants; names and docs over all short strings of special characters) is compiled with rustc and the derive, and run: attributes, flags, docs, default functions, and the absence of anything else on every item of the shape",
        assumptions: "attribute texts outside the recognised ones are compared up to white space",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    for o in outcomes("c04") {
        ctx.case(&o.group.clone(), &|| o.desc.clone(), || match &o.result {
            Ok(n) => Ok(CaseOut { class: *n, states: 1, transitions: *n }),
            Err(e) => Err(e.clone()),
        });
    }
}

#[derive(Clone)]
struct Atom {
    text: String,
    /// expected attribute
    attr: Vec<String>,
    doc: Vec<String>,
}
fn atom(text: &str, attr: &str, doc: &str) -> Atom {
    let v = |s: &str| if s.is_empty() { vec![] } else { vec![s.to_string()] };
    Atom { text: text.into(), attr: v(attr), doc: v(doc) }
}
/// attributes of a u32 field
fn atoms(thorough: bool) -> Vec<Atom> {
    let mut v = vec![
        atom("", "", ""),
        atom("#[facet(sensitive)]", "A::Sensitive", ""),
        atom("#[facet(rename = \"r1\")]", "A::Rename(\"r1\")", ""),
        atom("#[facet(default)]", "A::Default", ""),
        atom("#[facet(default = \"mk_u32\")]", "A::Fn(|f| mc::attrs::same_default::<u32>(f, 4242))", ""),
        atom("#[facet(positional)]", "A::Text(\"positional\")", ""),
        atom("#[facet(named, short = 'v')]", "A::Text(\"named, short = 'v'\")", ""),
        atom("/// doc \"line\"\n", "", " doc \"line\""),
        atom("#[doc = \"two\\nlines\"]", "", "two\nlines"),
        atom("#[allow(dead_code)]", "", ""),
    ];
    if thorough {
        v.extend([
            atom("#[facet(rename = \"sensitive\")]", "A::Rename(\"sensitive\")", ""),
            atom("#[facet(renamed = \"x\")]", "A::Text(\"renamed = \\\"x\\\"\")", ""),
            atom("#[facet(sensitively)]", "A::Text(\"sensitively\")", ""),
            atom("#[facet(defaults)]", "A::Text(\"defaults\")", ""),
            atom("#[cfg(all())]", "", ""),
            atom("#[facet(a(b, c), d = [1, 2])]", "A::Text(\"a(b, c), d = [1, 2]\")", ""),
        ]);
    }
    v
}
fn seqs(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|s: &Vec<usize>| {
                (0..n).map(move |i| {
                    let mut t = s.clone();
                    t.push(i);
                    t
                })
            })
            .collect();
        out.extend(last.clone());
    }
    out
}

struct Field {
    name: String,
    ty: String,
    shape: String,
    atoms: Vec<Atom>,
}
fn field(name: &str, atoms: &[Atom]) -> Field {
    Field { name: name.into(), ty: "u32".into(), shape: "u32".into(), atoms: atoms.to_vec() }
}
fn text(atoms: &[Atom]) -> String {
    atoms.iter().map(|a| a.text.clone()).collect::<Vec<_>>().join(" ")
}
fn docs(atoms: &[Atom]) -> String {
    format!("&[{}]", atoms.iter().flat_map(|a| &a.doc).map(|d| format!("{d:?}")).collect::<Vec<_>>().join(", "))
}
fn names(atoms: &[Atom]) -> String {
    format!("&[{}]", atoms.iter().flat_map(|a| &a.attr).cloned().collect::<Vec<_>>().join(", "))
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Named,
    Tuple,
    Unit,
}
fn body(kind: Kind, in_enum: bool, fields: &[Field]) -> (String, String) {
    let vis = if in_enum { "" } else { "pub " };
    let decl: Vec<String> = fields
        .iter()
        .map(|f| match kind {
            Kind::Named => format!("{} {vis}{}: {}", text(&f.atoms), f.name, f.ty),
            _ => format!("{} {vis}{}", text(&f.atoms), f.ty),
        })
        .collect();
    let decl = match kind {
        Kind::Named => format!("{{ {} }}", decl.join(", ")),
        Kind::Tuple => format!("({})", decl.join(", ")),
        Kind::Unit => String::new(),
    };
    let exp: Vec<String> = fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let name = match (kind, in_enum) {
                (Kind::Named, _) => f.name.clone(),
                (_, false) => i.to_string(),
                (_, true) => format!("_{i}"),
            };
            format!("F {{ name: {name:?}, attrs: {}, doc: {}, shape: || <{} as Facet>::SHAPE }}", names(&f.atoms), docs(&f.atoms), f.shape)
        })
        .collect();
    (decl, format!("&[{}]", exp.join(", ")))
}
fn structure(cont: &[Atom], kind: Kind, fields: &[Field]) -> String {
    let (decl, exp) = body(kind, false, fields);
    let semi = if kind == Kind::Named { "" } else { ";" };
    format!(
        "#[derive(Facet, Debug, Default)] {} pub struct T {decl}{semi}\npub fn check() -> R {{ mc::attrs::check::<T>({}, {}, &[I {{ variant: \"\", doc: &[], fields: {exp} }}]) }}",
        text(cont),
        names(cont),
        docs(cont)
    )
}
fn enumeration(repr: &str, cont: &[Atom], vars: &[(Vec<Atom>, Kind, Vec<Field>)]) -> String {
    let mut decls = vec![];
    let mut items = vec![];
    for (i, (at, kind, fields)) in vars.iter().enumerate() {
        let (decl, exp) = body(*kind, true, fields);
        let d = if i == 0 && *kind == Kind::Unit { "#[default] " } else { "" };
        decls.push(format!("{} {d}V{i} {decl}", text(at)));
        items.push(format!("I {{ variant: \"V{i}\", doc: {}, fields: {exp} }}", docs(at)));
    }
    let default = if vars[0].1 == Kind::Unit { ", Default" } else { "" };
    format!(
        "#[derive(Facet, Debug{default})] #[repr({repr})] {} pub enum T {{ {} }}\npub fn check() -> R {{ mc::attrs::check::<T>({}, {}, &[{}]) }}",
        text(cont),
        decls.join(", "),
        names(cont),
        docs(cont),
        items.join(", ")
    )
}

/// the same type, through a macro that is given it (`given`) or holds it
fn in_macro(code: &str, given: bool) -> String {
    let (decl, check) = code.split_once("\npub fn check").unwrap();
    if given {
        format!("macro_rules! def {{ ($($t:tt)*) => {{ $($t)* }} }} def! {{ {decl} }}\npub fn check{check}")
    } else {
        format!("macro_rules! def {{ () => {{ {decl} }} }} def! {{}}\npub fn check{check}")
    }
}
/// a struct put together by a macro from the names, the types and the attributes of its fields
fn in_parts(fields: &[Field], pattern: &str, result: &str) -> String {
    let code = structure(&[], Kind::Named, fields);
    let (_, check) = code.split_once("\npub fn check").unwrap();
    let given: Vec<String> = fields.iter().enumerate().map(|(i, f)| format!("{} {} {}: {}", text(&f.atoms), ["", "pub", "pub(crate)"][i % 3], f.name, f.ty)).collect();
    format!(
        "macro_rules! def {{ ($n:ident; $({pattern} $v:vis $f:ident: $t:ty),*) => {{ #[derive(Facet, Debug, Default)] pub struct $n {{ $({result} $v $f: $t),* }} }} }} def! {{ T; {} }}\npub fn check{check}",
        given.join(", ")
    )
}
fn programs(thorough: bool) -> Vec<Prog> {
    let mut out: Vec<Prog> = vec![];
    let mut add = |group: &str, code: String| {
        let desc = code.split("\npub fn check").next().unwrap().replace('\n', " ");
        out.push(Prog { group: group.into(), desc, code });
    };
    let al = atoms(thorough);
    let pick = |s: &[usize], al: &[Atom]| s.iter().map(|i| al[*i].clone()).collect::<Vec<_>>();
    // sequences on one field
    for s in seqs(al.len() - 1, if thorough { 3 } else { 2 }) {
        if thorough && s.len() == 3 && s.iter().any(|i| *i >= 10) {
            continue;
        }
        let at: Vec<Atom> = s.iter().map(|i| al[*i + 1].clone()).collect();
        add("field", structure(&[], Kind::Named, &[field("a", &[]), field("b", &at), field("c", &[])]));
    }
    // attributes whose text resembles a recognised one
    for a in atoms(true).iter().skip(atoms(false).len()) {
        for at in [vec![a.clone()], vec![a.clone(), al[1].clone()], vec![al[1].clone(), a.clone()], vec![a.clone(), a.clone()]] {
            add("lookalike", structure(&[], Kind::Named, &[field("a", &at), field("b", &[])]));
            add("lookalike", structure(&[], Kind::Tuple, &[field("a", &at), field("b", &[])]));
            add("lookalike", enumeration("u8", &[], &[(vec![], Kind::Tuple, vec![field("a", &at)])]));
            add("lookalike", enumeration("C", &[], &[(vec![], Kind::Named, vec![field("a", &at)])]));
        }
    }
    // pairs on two fields, in every kind of item
    for i in 0..al.len() {
        for j in 0..al.len() {
            let fs = || vec![field("a", &pick(&[i], &al)), field("b", &pick(&[j], &al))];
            add("two fields", structure(&[], Kind::Named, &fs()));
            add("two fields", structure(&[], Kind::Tuple, &fs()));
            for repr in ["u8", "C"] {
                for kind in [Kind::Named, Kind::Tuple] {
                    add("two fields", enumeration(repr, &[], &[(vec![], kind, fs()), (vec![], Kind::Unit, vec![])]));
                    // the same across variants
                    let f = |name: &str, i: usize| vec![field(name, &pick(&[i], &al))];
                    add("two variants", enumeration(repr, &[], &[(vec![], kind, f("a", i)), (vec![], Kind::Named, f("a", j))]));
                }
            }
        }
    }
    // container attributes
    let cont = vec![
        atom("#[facet(deny_unknown_fields)]", "\"deny_unknown_fields\"", ""),
        atom("#[facet(default)]", "\"default\"", ""),
        atom("#[facet(transparent)]", "\"transparent\"", ""),
        atom("/// doc \\ line\n", "", " doc \\ line"),
        atom("#[doc = \"\"]", "", ""),
        atom("#[allow(dead_code)]", "", ""),
    ];
    let mut cont = cont;
    cont[4].doc = vec!["".into()];
    for s in seqs(cont.len(), 3) {
        let at = pick(&s, &cont);
        let f = || vec![field("a", &al[7..8]), field("b", &al[1..2])];
        add("container", structure(&at, Kind::Named, &f()));
        add("container", structure(&at, Kind::Tuple, &f()));
        add("container", structure(&at, Kind::Unit, &[]));
        add("container", enumeration("u8", &at, &[(vec![], Kind::Unit, vec![]), (vec![], Kind::Named, f())]));
        if s.len() <= 2 || thorough {
            add("container", enumeration("C", &at, &[(vec![], Kind::Unit, vec![]), (vec![], Kind::Tuple, f())]));
            add("container", enumeration("C, u16", &at, &[(vec![], Kind::Named, f())]));
        }
    }
    // docs on variants and their fields
    let dl = vec![atom("", "", ""), atom("/// v1\n", "", " v1"), atom("#[doc = \"v2\"]", "", "v2"), atom("#[allow(unused)]", "", "")];
    for s in seqs(dl.len() - 1, 2) {
        for t in seqs(dl.len() - 1, 2) {
            let (s, t): (Vec<usize>, Vec<usize>) = (s.iter().map(|i| i + 1).collect(), t.iter().map(|i| i + 1).collect());
            for (k, repr) in ["u8", "C"].iter().enumerate() {
                for (x, y) in [(Kind::Unit, Kind::Tuple), (Kind::Tuple, Kind::Named), (Kind::Named, Kind::Unit)] {
                    let f = |kind: Kind| if kind == Kind::Unit { vec![] } else { vec![field("a", &dl[k + 1..k + 2]), field("b", &[])] };
                    add("variants", enumeration(repr, &[], &[(pick(&s, &dl), x, f(x)), (pick(&t, &dl), y, f(y))]));
                }
            }
        }
    }
    // names and docs over special characters
    let chars = ["\"", "\\", "'", " ", "a", "=", ",", "é", "🏀", "\n", "\t", "\0", "{", "}", "#", "\u{301}", "$", "\r", "\u{7f}", "(", ")", "]", "//", "/*"];
    let strings: Vec<String> = seqs(chars.len(), if thorough { 3 } else { 2 }).iter().map(|s| s.iter().map(|i| chars[*i]).collect::<String>()).collect();
    for (i, chunk) in strings.chunks(if thorough { 48 } else { 12 }).enumerate() {
        let mk = |doc: bool| -> Vec<Field> {
            chunk
                .iter()
                .enumerate()
                .map(|(j, s)| {
                    let a = if doc { atom(&format!("#[doc = {s:?}]"), "", "") } else { atom(&format!("#[facet(rename = {s:?})]"), &format!("A::Rename({s:?})"), "") };
                    let a = if doc { Atom { doc: vec![s.clone()], ..a } } else { a };
                    field(&format!("f{j}"), &[a])
                })
                .collect()
        };
        add("names", structure(&[], if i % 2 == 0 { Kind::Named } else { Kind::Tuple }, &mk(false)));
        add("docs", structure(&[], if i % 2 == 0 { Kind::Named } else { Kind::Tuple }, &mk(true)));
        add("names", enumeration("u8", &[], &[(vec![], if i % 2 == 0 { Kind::Tuple } else { Kind::Named }, mk(false))]));
    }
    for (raw, s) in [("r\"a\\b\"", "a\\b"), ("r#\"a\"b\"#", "a\"b"), ("\"\\u{e9}\\x41\"", "éA"), ("\"a\\\n   b\"", "ab")] {
        add("names", structure(&[], Kind::Named, &[field("a", &[atom(&format!("#[facet(rename = {raw})]"), &format!("A::Rename({s:?})"), "")]), field("b", &[])]));
    }
    for line in [" a", "a", "", " \"q\"", " \\", " \\n", " {}", " é🏀", "  two  ", " [link](x) `code`", " '"] {
        let a = Atom { text: format!("///{line}\n"), attr: vec![], doc: vec![line.to_string()] };
        add("docs", structure(&[a.clone()], Kind::Named, &[field("a", &[a.clone(), a.clone()])]));
        add("docs", enumeration("u8", &[a.clone()], &[(vec![a.clone()], Kind::Tuple, vec![field("a", &[a.clone()])])]));
        if !line.is_empty() {
            let a = Atom { text: format!("/**{line}*/"), ..a };
            add("docs", structure(&[a.clone()], Kind::Tuple, &[field("a", &[a])]));
        }
    }
    // default functions by path, and of other types; opaque fields
    for (f, ty, exp) in [("inner::mk", "String", "\"made\".to_string()"), ("String::new", "String", "String::new()"), ("Vec::<u8>::new", "Vec<u8>", "Vec::<u8>::new()"), ("mk_u32", "u32", "4242")] {
        let a = atom(&format!("#[facet(default = {f:?})]"), &format!("A::Fn(|f| mc::attrs::same_default::<{ty}>(f, {exp}))"), "");
        for k in [Kind::Named, Kind::Tuple] {
            let mut x = field("a", &[a.clone()]);
            (x.ty, x.shape) = (ty.into(), ty.into());
            add("default", structure(&[], k, &[field("z", &[]), x]));
            let mut x = field("a", &[a.clone()]);
            (x.ty, x.shape) = (ty.into(), ty.into());
            add("default", enumeration("u8", &[], &[(vec![], k, vec![field("z", &[]), x])]));
        }
    }
    for i in 0..8 {
        if i == 4 {
            continue;
        }
        let mk = || {
            let mut x = field("a", &[atom("#[facet(opaque)]", "", ""), al[i].clone()]);
            (x.ty, x.shape) = ("Arc<NoFacet>".into(), "facet::Opaque<Arc<NoFacet>>".into());
            let mut y = field("b", &[al[i].clone(), atom("#[facet(opaque)]", "", "")]);
            (y.ty, y.shape) = ("Arc<NoFacet>".into(), "facet::Opaque<Arc<NoFacet>>".into());
            vec![x, field("c", &[]), y]
        };
        add("opaque", structure(&[], Kind::Named, &mk()));
        add("opaque", structure(&[], Kind::Tuple, &mk()));
        add("opaque", enumeration("C", &[], &[(vec![], Kind::Named, mk())]));
    }
    // docs as raw strings
    for (raw, s) in [("r\" a\\b\"", " a\\b"), ("r#\" a\"b\"#", " a\"b"), ("r##\"\"#\"##", "\"#"), ("r\"\"", ""), ("r\"x\ny\"", "x\ny"), ("\"\\u{e9}\\x41\"", "éA")] {
        let a = Atom { text: format!("#[doc = {raw}]"), attr: vec![], doc: vec![s.to_string()] };
        add("docs", structure(&[a.clone()], Kind::Tuple, &[field("a", &[a.clone(), al[7].clone(), a.clone()])]));
        add("docs", enumeration("u8", &[a.clone()], &[(vec![a.clone()], Kind::Named, vec![field("a", &[a.clone()])])]));
    }
    // types defined by macros: given to one as tokens, written in one, put together by one
    let whole = |code: String| vec![code.clone(), in_macro(&code, true), in_macro(&code, false)];
    for i in 0..al.len() {
        for j in 0..al.len() {
            let fs = || vec![field("a", &pick(&[i], &al)), field("b", &pick(&[i, j], &al))];
            for k in [Kind::Named, Kind::Tuple] {
                let progs = [structure(&pick(&[7], &al), k, &fs()), enumeration("u8", &pick(&[7, 8], &al), &[(pick(&[7], &al), k, fs()), (pick(&[8], &al), Kind::Unit, vec![])])];
                for p in progs {
                    for p in whole(p).split_off(1) {
                        add("macro", p);
                    }
                }
            }
            add("macro parts", in_parts(&fs(), "$(#[$($a:tt)*])*", "$(#[$($a)*])*"));
            add("macro parts", in_parts(&fs(), "$(#[$a:meta])*", "$(#[$a])*"));
        }
    }
    for s in seqs(cont.len(), 2) {
        let at = pick(&s, &cont);
        for p in [structure(&at, Kind::Unit, &[]), enumeration("C", &at, &[(vec![], Kind::Unit, vec![])])] {
            for p in whole(p).split_off(1) {
                add("macro", p);
            }
        }
    }
    for line in [" a", "a", "", " \"q\"", " \\", " \\n", " {}", " é🏀", "  two  ", " \"#", " '"] {
        let a = Atom { text: format!("///{line}\n"), attr: vec![], doc: vec![line.to_string()] };
        for p in whole(structure(&[a.clone()], Kind::Named, &[field("a", &[a.clone(), a.clone()])])).split_off(1) {
            add("macro", p);
        }
    }
    // several in one attribute
    let one = [("sensitive", 1), ("rename = \"r1\"", 2), ("default", 3), ("default = \"mk_u32\"", 4)];
    for (i, (s, a)) in one.iter().enumerate() {
        for (j, (t, b)) in one.iter().enumerate() {
            if i != j && !(i >= 2 && j >= 2) {
                let at = Atom { text: format!("#[facet({s}, {t})]"), attr: [al[*a].attr.clone(), al[*b].attr.clone()].concat(), doc: vec![] };
                add("combined", structure(&[], Kind::Named, &[field("a", &[at])]));
            }
        }
    }
    let at = Atom { text: "#[facet(deny_unknown_fields, default)]".into(), attr: vec!["\"deny_unknown_fields\"".into(), "\"default\"".into()], doc: vec![] };
    add("combined", structure(&[at], Kind::Named, &[field("a", &[])]));
    out
}
