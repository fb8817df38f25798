use mc::progs::*;
use mc::*;

const HEADER: &str = "use facet::{EnumRepr, Facet, StructKind};\nuse mc::layout::*;\nuse std::collections::HashMap;\nuse std::mem::offset_of;\nuse std::sync::Arc;";

fn main() {
    if let Some(thorough) = parent() {
        prepare("c03", HEADER, &programs(thorough));
    }
    mc::main(Check {
        id: "C03",
        level: "model_checking",
        rule: "every program of an enumerated family of type definitions (structs: kinds x representations x all field type sequences up to a length; enums: all representations x all variant kind sequences up to a length x discriminant styles; generic definitions x instantiations) is compiled with rustc and the derive, and run: size, alignment, kinds, names, field types, offsets (against offset_of! or the address measured on a value), discriminants and representation are compared, 4 values per variant are read through the shape, and built through it in two orders",
        assumptions: "rustc's layout is the reference; discriminants are counted by the generator by Rust's rules",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    for o in outcomes("c03") {
        ctx.case(&o.group.clone(), &|| o.desc.clone(), || match &o.result {
            Ok(n) => Ok(CaseOut { class: *n, states: 1, transitions: *n }),
            Err(e) => Err(e.clone()),
        });
    }
}

fn sequences(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|s: Vec<usize>| {
                (0..n).map(move |i| {
                    let mut t = s.clone();
                    t.push(i);
                    t
                })
            })
            .collect();
    }
    out
}
const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];

/// a struct definition with the given fields; `inst`: how the type is instantiated
fn structure(head: &str, generics: &str, wher: &str, inst: &str, params: &str, named: bool, fields: &[(&str, &str)], subst: &dyn Fn(&str) -> String) -> String {
    let mut code = format!("#[derive(Facet, Debug, Clone, PartialEq)] {head} pub struct T{generics} ");
    if named {
        code += &format!("{wher} {{ {} }}\n", fields.iter().map(|(n, t)| format!("pub {n}: {t}")).collect::<Vec<_>>().join(", "));
    } else if fields.is_empty() && head.contains("/*unit*/") {
        code += &format!("{wher};\n");
    } else {
        code += &format!("({}) {wher};\n", fields.iter().map(|(_, t)| format!("pub {t}")).collect::<Vec<_>>().join(", "));
    }
    let kind = if named { "Struct" } else if head.contains("/*unit*/") { "Unit" } else { "TupleStruct" };
    code += &format!("pub type X = T{inst};\npub fn check() -> R {{ struct_::<X>(\"T\", StructKind::{kind}, &[{params}], &|k: u64| ");
    let g = |i: usize| format!("G::g(k * 8 + {i})");
    if named {
        code += &format!("T {{ {} }}", fields.iter().enumerate().map(|(i, (n, _))| format!("{n}: {}", g(i))).collect::<Vec<_>>().join(", "));
    } else if kind == "Unit" {
        code += "T";
    } else {
        code += &format!("T({})", fields.iter().enumerate().map(|(i, _)| g(i)).collect::<Vec<_>>().join(", "));
    }
    code += ", &[";
    for (i, (n, t)) in fields.iter().enumerate() {
        let n = if named { n.to_string() } else { i.to_string() };
        code += &format!("fd::<{}>(\"{}\", offset_of!(X, {n})), ", subst(t), n.trim_start_matches("r#"));
    }
    code += "]) }\n";
    code
}

#[derive(Clone)]
struct Var {
    /// field types; named fields if `named`
    fields: Vec<&'static str>,
    named: bool,
    unit: bool,
}
fn enumeration(repr: &str, generics: &str, wher: &str, inst: &str, params: &str, vars: &[Var], discs: &[Option<&str>], subst: &dyn Fn(&str) -> String) -> (String, String) {
    let mut decl = String::new();
    let mut tag = String::new();
    let mut values: Vec<i128> = vec![];
    let mut next: i128 = 0;
    for (i, v) in vars.iter().enumerate() {
        let d = match discs[i] {
            Some(d) => {
                let u = d.replace('_', "");
                let (neg, u) = match u.strip_prefix('-') {
                    Some(r) => (-1, r.to_string()),
                    None => (1, u),
                };
                next = neg
                    * if let Some(h) = u.strip_prefix("0x") {
                        i128::from_str_radix(h, 16).unwrap()
                    } else if let Some(b) = u.strip_prefix("0b") {
                        i128::from_str_radix(b, 2).unwrap()
                    } else {
                        u.parse().unwrap()
                    };
                format!(" = {d}")
            }
            None => String::new(),
        };
        values.push(next);
        next += 1;
        tag += &format!("V{i}{d}, ");
        decl += &format!("V{i}");
        if v.named {
            decl += &format!(" {{ {} }}", v.fields.iter().enumerate().map(|(j, t)| format!("{}: {t}", NAMES[j])).collect::<Vec<_>>().join(", "));
        } else if !v.unit {
            decl += &format!("({})", v.fields.join(", "));
        }
        decl += &format!("{d}, ");
    }
    let mut code = format!("#[derive(Facet, Debug, Clone, PartialEq)] #[repr({repr})] pub enum T{generics} {wher} {{ {decl} }}\npub type X = T{inst};\n");
    let prim = repr.split(',').map(|s| s.trim()).find(|s| *s != "C");
    let exp = match prim {
        Some(p) => format!("Ok(EnumRepr::{})", p.replace("size", "Size").replace(|c: char| c == 'u' || c == 'i', "").chars().next().map(|_| match p {
            "usize" => "USize".to_string(),
            "isize" => "ISize".to_string(),
            p => p.to_uppercase(),
        }).unwrap()),
        None => {
            code += &format!("#[repr(C)] enum Tag {{ {tag} }}\n");
            "Err(size_of::<Tag>())".to_string()
        }
    };
    code += &format!("pub fn check() -> R {{ enum_::<X>(\"T\", {exp}, &[{params}], &[\n");
    for (i, v) in vars.iter().enumerate() {
        let kind = if v.named { "Struct" } else if v.unit { "Unit" } else { "Tuple" };
        let binds: Vec<String> = (0..v.fields.len()).map(|j| if v.named { NAMES[j].to_string() } else { format!("_{j}") }).collect();
        let gs = |j: usize| format!("G::g(k * 8 + {j})");
        let (make, pat) = if v.named {
            (
                format!("T::V{i} {{ {} }}", binds.iter().enumerate().map(|(j, n)| format!("{n}: {}", gs(j))).collect::<Vec<_>>().join(", ")),
                format!("T::V{i} {{ {} }}", binds.join(", ")),
            )
        } else if v.unit {
            (format!("T::V{i}"), format!("T::V{i}"))
        } else {
            (format!("T::V{i}({})", (0..binds.len()).map(gs).collect::<Vec<_>>().join(", ")), format!("T::V{i}({})", binds.join(", ")))
        };
        let fds: String = binds.iter().zip(&v.fields).map(|(b, t)| format!("fv::<{}, X>(\"{b}\", x, {b}), ", subst(t))).collect();
        code += &format!(
            "Vd {{ name: \"V{i}\", kind: StructKind::{kind}, disc: {}, make: |k: u64| {make}, fields: |x: &X| match x {{ {pat} => Some(vec![{fds}]), #[allow(unreachable_patterns)] _ => None }} }},\n",
            values[i]
        );
    }
    code += "]) }\n";
    let desc = format!("#[repr({repr})] enum T{generics}{} {wher}{{ {decl} }}", if inst.is_empty() { String::new() } else { format!("={inst}") });
    (desc, code)
}

fn programs(thorough: bool) -> Vec<Prog> {
    let mut out = vec![];
    let id = |t: &str| t.to_string();
    // structs
    let ft: &[&str] = if thorough { &["u8", "u16", "u64", "String", "()", "Option<u8>", "u128"] } else { &["u8", "u16", "u64", "String"] };
    for repr in ["", "#[repr(C)]"] {
        for named in [true, false] {
            for len in 0..=3 {
                for s in sequences(ft.len(), len) {
                    let fields: Vec<(&str, &str)> = s.iter().enumerate().map(|(i, j)| (NAMES[i], ft[*j])).collect();
                    let code = structure(repr, "", "", "", "", named, &fields, &id);
                    out.push(Prog { group: format!("struct {repr}"), desc: code.lines().next().unwrap().replace("#[derive(Facet, Debug, Clone, PartialEq)]", ""), code });
                }
            }
        }
    }
    for t in ["()", "Option<u8>", "u128", "[u8; 3]", "(u8, u32)", "bool", "char", "f64", "Vec<u16>", "HashMap<u8, String>", "Arc<u32>", "&'static str", "Option<Vec<(u8, String)>>", "[[u8; 2]; 2]", "i128", "usize", "std::string::String"] {
        for named in [true, false] {
            for repr in ["", "#[repr(C)]", "#[repr(transparent)]"] {
                let mut shapes = vec![vec![("a", t)]];
                if !repr.contains("transparent") {
                    shapes.extend([vec![("a", "u8"), ("b", t)], vec![("a", t), ("b", "u8")], vec![("a", "u8"), ("b", t), ("c", "u16")]]);
                }
                for fields in shapes {
                    let code = structure(repr, "", "", "", "", named, &fields, &id);
                    out.push(Prog { group: format!("struct of {t}"), desc: code.lines().next().unwrap().replace("#[derive(Facet, Debug, Clone, PartialEq)]", ""), code });
                }
            }
        }
    }
    {
        let code = structure("/*unit*/", "", "", "", "", false, &[], &id);
        out.push(Prog { group: "unit struct".into(), desc: "struct T;".into(), code });
        // more fields than any bit set of the builder holds in a byte or word
        for n in [7usize, 8, 9, 31, 32, 33, 63, 64] {
            let names: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            let types = ["u8", "u32", "String"];
            let fields: Vec<(&str, &str)> = names.iter().enumerate().map(|(i, s)| (s.as_str(), types[i % 3])).collect();
            for named in [true, false] {
                let code = structure("", "", "", "", "", named, &fields, &id);
                out.push(Prog { group: "struct with many fields".into(), desc: format!("{n} fields, named: {named}"), code });
            }
        }
        let names = ["value", "shape", "s", "fields", "T", "vtable", "opts", "_opts", "_discriminant", "self_", "_0", "name", "ptr"];
        let fields: Vec<(&str, &str)> = names.iter().enumerate().map(|(i, s)| (*s, ["u8", "u32", "String"][i % 3])).collect();
        let code = structure("", "", "", "", "", true, &fields, &id);
        out.push(Prog { group: "struct with odd names".into(), desc: "names the generated code uses itself".into(), code });
    }
    // raw identifiers
    for names in [["r#type", "b", "r#fn"], ["a", "r#use", "r#r"], ["r#struct", "r#mod", "r#match"]] {
        for named_types in [["u8", "u32", "String"], ["String", "u8", "u16"]] {
            let fields: Vec<(&str, &str)> = names.iter().zip(named_types).map(|(n, t)| (*n, t)).collect();
            let code = structure("", "", "", "", "", true, &fields, &id);
            out.push(Prog { group: "raw identifiers".into(), desc: format!("struct with {fields:?}"), code });
        }
        let named = Var { fields: vec!["u8", "u32", "u8"], named: true, unit: false };
        let tuple = Var { fields: vec!["u8", "u64", "u16"], named: false, unit: false };
        let unit = Var { fields: vec![], named: false, unit: true };
        for repr in ["u8", "C", "C, u8", "i32"] {
            for vars in [vec![named.clone(), unit.clone(), tuple.clone()], vec![unit.clone(), tuple.clone(), named.clone()], vec![tuple.clone(), named.clone(), unit.clone()]] {
                let (_, mut code) = enumeration(repr, "", "", "", "", &vars, &[None, None, None], &id);
                for (i, n) in names.iter().enumerate() {
                    let plain = n.trim_start_matches("r#");
                    let (v, f) = (format!("V{i}"), NAMES[i]);
                    code = code.replace(&format!("\"{v}\""), &format!("\"{plain}\"")).replace(&v, n);
                    code = code.replace(&format!("(\"{f}\", x, {f})"), &format!("(\"{plain}\", x, {n})")).replace(&format!(" {f}: "), &format!(" {n}: "));
                }
                code = code.replace("{ a, b, c }", &format!("{{ {} }}", names.join(", ")));
                out.push(Prog { group: "raw identifiers".into(), desc: format!("#[repr({repr})] enum with {names:?}, kinds {}", vars.iter().map(|v| if v.unit { "unit" } else if v.named { "named" } else { "tuple" }).collect::<Vec<_>>().join(" ")), code });
            }
        }
    }
    // generic structs
    let inst = ["u8", "u64", "String", "Option<u16>"];
    for p in inst {
        let param = format!("(\"P\", <{p} as Facet>::SHAPE)");
        let subst = |t: &str| t.split_inclusive(|c: char| !c.is_alphanumeric()).map(|w| {
            let bare = w.trim_end_matches(|c: char| !c.is_alphanumeric());
            if bare == "P" { w.replacen('P', p, 1) } else { w.to_string() }
        }).collect::<String>();
        let variants: &[(&str, &str)] = &[
            ("<P>", ""),
            ("<P: Clone>", ""),
            ("<P: Clone + PartialEq>", ""),
            ("<P>", "where P: Clone"),
            ("<P>", "where P: Clone + PartialEq, Vec<P>: Clone"),
            ("<P>", "where P: Clone,"),
            ("<P = u8>", ""),
        ];
        for (generics, wher) in variants {
            for fields in [vec![("a", "u8"), ("b", "P"), ("c", "u16")], vec![("a", "P"), ("b", "u8"), ("c", "P")], vec![("a", "Vec<P>"), ("b", "Option<P>")], vec![("a", "(u8, P)"), ("b", "[P; 2]"), ("c", "u8")], vec![("a", "HashMap<u8, Vec<P>>"), ("b", "P")]] {
                // the impl for maps wants 'static
                let (generics, wher) = match (fields[0].1.starts_with("Hash"), *wher) {
                    (false, w) => (generics.to_string(), w.to_string()),
                    (true, "") => (generics.to_string(), "where P: 'static".to_string()),
                    (true, w) => (generics.to_string(), format!("{}, P: 'static", w.trim_end_matches(','))),
                };
                let (generics, wher) = (&generics, &wher);
                for named in [true, false] {
                    let i = format!("<{p}>");
                    let code = structure("", generics, wher, &i, &param, named, &fields, &subst);
                    out.push(Prog { group: "generic struct".into(), desc: format!("{} with P={p}", code.lines().next().unwrap().replace("#[derive(Facet, Debug, Clone, PartialEq)]", "")), code });
                }
            }
        }
        for q in ["u8", "u32"] {
            let subst2 = |t: &str| if t == "Q" { q.to_string() } else { subst(t) };
            let param2 = format!("{param}, (\"Q\", <{q} as Facet>::SHAPE)");
            for (generics, wher) in [("<P, Q>", ""), ("<P: Clone, Q>", "where Q: Clone"), ("<P, Q: Clone + PartialEq>", "where P: Clone, Q: PartialEq")] {
                let code = structure("", generics, wher, &format!("<{p}, {q}>"), &param2, true, &[("a", "P"), ("b", "Q"), ("c", "P"), ("d", "u8")], &subst2);
                out.push(Prog { group: "generic struct".into(), desc: format!("{} with P={p} Q={q}", code.lines().next().unwrap()), code });
            }
        }
        for n in [1, 3] {
            let subst3 = |t: &str| subst(t).replace("; N]", &format!("; {n}]"));
            for generics in ["<P, const N: usize>", "<P: Clone, const N: usize>"] {
                let code = structure("", generics, "", &format!("<{p}, {n}>"), &param, true, &[("a", "u8"), ("b", "[P; N]"), ("c", "u16")], &subst3);
                out.push(Prog { group: "generic struct".into(), desc: format!("{} with P={p} N={n}", code.lines().next().unwrap()), code });
            }
            let code = structure("", "<const N: usize>", "", &format!("<{n}>"), "", true, &[("a", "u8"), ("b", "[u16; N]"), ("c", "u64")], &subst3);
            out.push(Prog { group: "generic struct".into(), desc: format!("{} with N={n} ({p})", code.lines().next().unwrap()), code });
        }
    }
    // enums
    let kinds: Vec<Var> = vec![
        Var { fields: vec![], named: false, unit: true },
        Var { fields: vec!["u8"], named: false, unit: false },
        Var { fields: vec!["u8", "u64", "u16"], named: false, unit: false },
        Var { fields: vec!["u8", "u32", "u8"], named: true, unit: false },
        Var { fields: vec!["String"], named: false, unit: false },
    ];
    let reprs = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "C", "C, u8", "C, i16", "C, u64", "i32, C"];
    let mut enums: Vec<(&str, Vec<Var>, Vec<Option<&'static str>>)> = vec![];
    for r in reprs {
        for len in 1..=2usize {
            for s in sequences(kinds.len(), len) {
                let vars: Vec<Var> = s.iter().map(|i| kinds[*i].clone()).collect();
                enums.push((r, vars.clone(), vec![None; len]));
                enums.push((r, vars, [Some("3"), None, None][..len].to_vec()));
            }
        }
        let deep = thorough || ["u8", "C", "i64", "C, u8"].contains(&r);
        if deep {
            for s in sequences(kinds.len(), 3) {
                let vars: Vec<Var> = s.iter().map(|i| kinds[*i].clone()).collect();
                let styles: &[[Option<&'static str>; 3]] = if thorough {
                    &[[None, None, None], [None, Some("7"), None], [Some("5"), None, Some("1")], [Some("0x10"), Some("0b11"), Some("100")]]
                } else {
                    &[[None, Some("7"), None]]
                };
                for st in styles {
                    enums.push((r, vars.clone(), st.to_vec()));
                }
            }
        }
        // discriminants at the limits
        let bits = match r {
            "u8" | "i8" | "C, u8" => 8,
            "u16" | "i16" | "C, i16" => 16,
            "u32" | "i32" | "i32, C" | "C" => 32,
            _ => 64,
        };
        let signed = r.contains('i') && !r.contains('u') || r == "C";
        let max: i128 = if signed || bits == 64 { (1 << (bits - 1)) - 1 } else { (1 << bits) - 1 };
        let texts = [format!("{}", max - 2), format!("0x{:x}", max - 1), format!("0b{:b}", max / 2), format!("{:?}", max).chars().rev().collect::<Vec<_>>().chunks(3).map(|c| c.iter().collect::<String>()).collect::<Vec<_>>().join("_").chars().rev().collect::<String>()];
        for (i, t) in texts.iter().enumerate() {
            let t: &'static str = Box::leak(t.clone().into_boxed_str());
            for k in 0..kinds.len() {
                let vars = vec![kinds[0].clone(), kinds[k].clone(), kinds[3].clone()];
                let mut d = vec![None, Some(t), Some("2")];
                if i == 0 {
                    d = vec![Some("1"), Some(t), None];
                }
                enums.push((r, vars, d));
            }
        }
    }
    // C discriminants wider than an int
    for (i, d) in ["0x7fff_ffff", "0x8000_0000", "0xffff_ffff"].iter().enumerate() {
        for n in 1..=2 {
            let mut vars = vec![kinds[0].clone(); n];
            let mut discs = vec![None; n - 1];
            discs.push(Some(*d));
            if i == 1 {
                vars.push(kinds[0].clone());
                discs.push(None);
            }
            enums.push(("C", vars, discs));
        }
    }
    if usize::BITS == 64 {
        enums.push(("C", vec![kinds[0].clone(); 3], vec![None, Some("0x1_0000_0000"), None]));
        enums.push(("C", vec![kinds[0].clone(); 3], vec![Some("0x7fff_ffff_ffff_fffe"), Some("0"), None]));
    }
    // what rustc rejects: two representations for a field-less enum; explicit discriminants
    // with fields under plain C
    enums.retain(|(r, vars, discs)| {
        let fieldless = vars.iter().all(|v| v.unit);
        !(fieldless && r.contains(',')) && !(*r == "C" && !fieldless && discs.iter().any(|d| d.is_some()))
    });
    for (r, vars, discs) in enums {
        let (desc, code) = enumeration(r, "", "", "", "", &vars, &discs, &id);
        out.push(Prog { group: format!("enum {r}"), desc, code });
    }
    // more field types in enums
    for t in ["()", "Option<u8>", "u128", "[u8; 3]", "(u8, u32)", "Vec<u16>", "HashMap<u8, String>", "Option<Vec<(u8, String)>>", "&'static str", "std::string::String", "bool", "char"] {
        for r in ["u8", "u64", "C", "C, u16"] {
            let t: &'static str = t;
            let vars = vec![
                Var { fields: vec![t], named: false, unit: false },
                Var { fields: vec!["u8", t, "u16"], named: true, unit: false },
                Var { fields: vec!["u8", t, "u16"], named: false, unit: false },
            ];
            let (desc, code) = enumeration(r, "", "", "", "", &vars, &[None, None, None], &id);
            out.push(Prog { group: format!("enum {r} of {t}"), desc, code });
        }
    }
    // generic enums
    for p in inst {
        let param = format!("(\"P\", <{p} as Facet>::SHAPE)");
        let subst = |t: &str| t.replace('P', p);
        // (the derive rejects generic C enums and variants without the parameter)
        for r in ["u8", "u32", "i64"] {
            for (generics, wher) in [("<P>", ""), ("<P: Clone>", ""), ("<P>", "where P: Clone")] {
                for vars in [
                    vec![Var { fields: vec!["P"], named: false, unit: false }],
                    vec![Var { fields: vec!["u8", "P"], named: false, unit: false }, Var { fields: vec!["P", "u16"], named: true, unit: false }],
                    vec![kinds[0].clone(), Var { fields: vec!["u8", "P"], named: false, unit: false }, Var { fields: vec!["Vec<P>"], named: false, unit: false }, Var { fields: vec!["u16", "Option<P>", "P"], named: true, unit: false }],
                ] {
                    let discs = vec![None; vars.len()];
                    let (desc, code) = enumeration(r, generics, wher, &format!("<{p}>"), &param, &vars, &discs, &subst);
                    out.push(Prog { group: format!("generic enum {r}"), desc, code });
                }
            }
        }
    }
    out
}
