use mc::jsongen::sequences;
use mc::native::*;
use mc::universe::*;
use mc::*;
use std::borrow::Cow;
use std::net::Ipv4Addr;

fn main() {
    mc::main(Check {
        id: "A01",
        level: "model_checking",
        rule: "for each argument struct (positional, named, short, boolean, numeric, text and unsupported fields): all argument vectors to a length over its long and short names, unknown ones and values; all values over small domains, given in all orders and all mixes of long, short and positional arguments; boundary numbers, odd texts and texts of up to 1025 characters as values, and up to 1025 repetitions of an argument. The struct must be the one the arguments denote, or the vector refused, without leaks",
        assumptions: "refusing is a panic (the function has no other way); each positional argument goes to the first positional field without a value; the last of several named ones counts; flags that aren't given are false; a single dash with anything but a known short name is a positional argument",
        run,
    });
}
native_struct!(A1 {
    #[facet(positional)] path: String,
    #[facet(named, short = 'v')] verbose: bool,
    #[facet(named, short = 'j')] concurrency: usize,
});
native_struct!(A2 {
    #[facet(positional)] a: String,
    #[facet(named, short = 'b')] c: bool,
    #[facet(positional)] b: u8,
    #[facet(named)] d: i16,
});
native_struct!(A3 { x: u64, y: bool, z: f64 });
native_struct!(A4 {
    #[facet(positional)] p: bool,
    #[facet(short = 'p', named)] n: char,
    #[facet(short='s')] s: String,
});
native_struct!(A5 { #[facet(positional)] a: u8, #[facet(named, short = 'o')] o: Option<u8>, b: bool });
native_struct!(A6 {});
native_struct!(A7 { #[facet(positional)] v: Vec<u8>, b: bool });
native_struct!(A8 { #[facet(short = 'x')] x: bool, #[facet(short = 'y')] y: bool, #[facet(short = 'z')] xyz: bool, #[facet(named)] flag: bool });
native_struct!(A9 { #[facet(positional)] a: String, #[facet(positional)] b: String, #[facet(positional)] c: String, #[facet(short = 'f')] f: bool });
native_struct!(A10 { #[facet(positional, short = 'i')] input: String, #[facet(positional, short = 'o')] output: String, #[facet(short = '1')] one: i8 });
native_struct!(A11 { a: i8, b: u16, c: i32, d: i64, e: f32, f: u32, g: i128, h: usize });
native_struct!(A12 { s: Cow<'static, str>, u: (), ip: Ipv4Addr, c: char, b: bool });
native_struct!(A13 { e: E, b: bool });
native_struct!(A15 {
    #[facet(positional)] p0: String, #[facet(positional)] p1: u8, #[facet(positional)] p2: u16, #[facet(positional)] p3: String, #[facet(positional)] p4: u8, #[facet(positional)] p5: String,
    #[facet(named, short = 'a')] n0: bool, #[facet(short = 'b')] n1: bool, n2: u8, #[facet(short = 'c')] n3: String, n4: bool, #[facet(short = 'd')] n5: bool, n6: bool, n7: bool, n8: u8, n9: String,
});
native_tuple_struct!(A14(0: u8, 1: bool, 2: String));

#[derive(Clone, Copy, Default)]
struct Arg {
    positional: bool,
    short: Option<char>,
}
struct Target {
    ty: &'static Ty,
    read: fn(&[&str]) -> Result<Option<Val>, String>,
    args: Vec<Arg>,
}
/// a panic is a refusal
fn read<T: Native>(s: &[&str]) -> Result<Option<Val>, String> {
    mc::at(s.join(" ").as_bytes());
    let mut out: Option<Val> = None;
    let (_, rep) = tracked(|| match catching(|| facet_args::from_slice::<T>(s)) {
        Ok(x) => {
            let v = untracked(|| x.unmake());
            drop(x);
            untracked(|| out = Some(v))
        }
        Err(m) => drop(m),
    });
    if !rep.clean() {
        return Err(format!("memory: {}", rep.describe()));
    }
    Ok(out)
}
/// `p` positional, anything else but `-` a short name
fn target<T: Native>(args: &[&str]) -> Target {
    Target { ty: T::ty(), read: read::<T>, args: args.iter().map(|a| Arg { positional: a.contains('+'), short: a.chars().find(|c| *c != '+') }).collect() }
}
fn targets() -> Vec<Target> {
    vec![
        target::<A1>(&["+", "v", "j"]),
        target::<A2>(&["+", "b", "+", ""]),
        target::<A3>(&["", "", ""]),
        target::<A4>(&["+", "p", "s"]),
        target::<A5>(&["+", "o", ""]),
        target::<A6>(&[]),
        target::<A7>(&["+", ""]),
        target::<A8>(&["x", "y", "z", ""]),
        target::<A9>(&["+", "+", "+", "f"]),
        target::<A10>(&["+i", "+o", "1"]),
        target::<A11>(&["", "", "", "", "", "", "", ""]),
        target::<A12>(&["", "", "", "", ""]),
        target::<A13>(&["", ""]),
        target::<A14>(&["", "", ""]),
        target::<A15>(&["+", "+", "+", "+", "+", "+", "a", "b", "", "c", "", "d", "", "", "", ""]),
        target::<u8>(&[]),
        target::<String>(&[]),
        target::<bool>(&[]),
        target::<E>(&[]),
        target::<Vec<u8>>(&[]),
    ]
}
fn scalar(t: &'static Ty, s: &str) -> Option<Val> {
    match t.name.as_str() {
        "String" => Some(Val::S(s.into())),
        "bool" => match s.to_lowercase().as_str() {
            "true" => Some(Val::B(true)),
            "false" => Some(Val::B(false)),
            _ => None,
        },
        _ if matches!(t.kind, Kind::Leaf) => (t.parse?)(s),
        _ => None,
    }
}
fn denote(t: &Target, s: &[&str]) -> Option<Val> {
    let Kind::Struct(fs) = &t.ty.kind else { return None };
    let mut vals: Vec<Option<Val>> = vec![None; fs.len()];
    let mut s = s.iter();
    while let Some(tok) = s.next() {
        let mut named = None;
        if let Some(name) = tok.strip_prefix("--") {
            named = Some(fs.iter().position(|f| f.0 == name)?);
        } else if let Some(c) = tok.strip_prefix('-') {
            named = t.args.iter().position(|a| a.short.is_some_and(|x| x.to_string() == c));
        }
        match named {
            Some(i) if fs[i].1().name == "bool" => vals[i] = Some(Val::B(true)),
            Some(i) => vals[i] = Some(scalar(fs[i].1(), s.next()?)?),
            None => {
                let i = (0..fs.len()).find(|i| t.args[*i].positional && vals[*i].is_none())?;
                vals[i] = Some(scalar(fs[i].1(), tok)?)
            }
        }
    }
    for (f, v) in fs.iter().zip(&mut vals) {
        if v.is_none() && f.1().name == "bool" {
            *v = Some(Val::B(false));
        }
    }
    vals.into_iter().collect::<Option<_>>().map(Val::Struct)
}
fn agree(t: &Target, s: &[&str]) -> Result<bool, String> {
    let canon = mc::toml::canon;
    let want = denote(t, s).map(|v| canon(&v));
    match ((t.read)(s)?.map(|v| canon(&v)), want) {
        (g, w) if g == w => Ok(g.is_some()),
        (g, w) => Err(format!("{s:?} as {}: {g:?} instead of {w:?} (None: refused)", t.ty.name)),
    }
}
fn out(n: u64, acc: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + acc.min(1), states: n, transitions: n })
}
fn text(v: &Val) -> Option<String> {
    Some(match v {
        Val::S(s) => s.clone(),
        Val::I(i) => i.to_string(),
        Val::F(b) => format!("{:?}", f64::from_bits(*b)),
        Val::C(c) => c.to_string(),
        Val::B(b) => b.to_string(),
        _ => return None,
    })
}
fn run(ctx: &mut Ctx) {
    let targets = targets();
    // all vectors over an alphabet
    for t in &targets {
        let mut words: Vec<String> = ["1", "x", "-5", "--zz", "-", "true"].map(String::from).to_vec();
        if let Kind::Struct(fs) = &t.ty.kind {
            for (f, a) in fs.iter().zip(&t.args).take(5) {
                words.push(format!("--{}", f.0));
                words.extend(a.short.map(|c| format!("-{c}")));
            }
        }
        let tokens: Vec<&[u8]> = (0..words.len() as u8).map(|i| &*Box::leak(vec![i].into_boxed_slice())).collect();
        let len = match words.len() {
            ..=9 => ctx.pick(5, 6),
            10..=12 => ctx.pick(4, 6),
            _ => ctx.pick(4, 5),
        };
        for i in 0..words.len() {
            for j in 0..words.len() {
                ctx.case(&format!("vectors {}", t.ty.name), &|| format!("{:?} {:?} ..", words[i], words[j]), || {
                    let (mut n, mut acc) = (0, 0);
                    for k in 0..=len - 2 {
                        sequences(&tokens, &[i, j], k, &mut |s| {
                            let v: Vec<&str> = s.iter().map(|i| words[*i as usize].as_str()).collect();
                            acc += agree(t, &v)? as u64;
                            n += 1;
                            Ok(())
                        })?;
                    }
                    out(n, acc)
                });
            }
        }
        ctx.case(&format!("vectors {}", t.ty.name), &|| "short".into(), || {
            let mut acc = agree(t, &[])? as u64;
            for w in &words {
                acc += agree(t, &[w])? as u64;
            }
            out(words.len() as u64 + 1, acc)
        });
        // longer ones that are mostly well-formed
        let Kind::Struct(fs) = &t.ty.kind else { continue };
        let mut groups: Vec<Vec<String>> = vec![vec!["y".into()], vec!["7".into()]];
        for (f, a) in fs.iter().zip(&t.args) {
            for name in [Some(format!("--{}", f.0)), a.short.map(|c| format!("-{c}"))].into_iter().flatten() {
                match f.1().name.as_str() {
                    "bool" => groups.push(vec![name]),
                    "String" => groups.push(vec![name, format!("-{}", t.args[0].short.unwrap_or('q'))]),
                    _ => groups.push(vec![name, "1".into()]),
                }
            }
        }
        let tokens: Vec<&[u8]> = (0..groups.len() as u8).map(|i| &*Box::leak(vec![i].into_boxed_slice())).collect();
        let len = if groups.len() > 8 { ctx.pick(4, 6) } else { ctx.pick(6, 7) };
        for i in 0..groups.len() {
            ctx.case(&format!("groups {}", t.ty.name), &|| format!("{:?} ..", groups[i]), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..len {
                    sequences(&tokens, &[i], k, &mut |s| {
                        let v: Vec<&str> = s.iter().flat_map(|i| groups[*i as usize].iter().map(|x| x.as_str())).collect();
                        acc += agree(t, &v)? as u64;
                        n += 1;
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // every value, in every order and form
    for t in &targets {
        let Kind::Struct(fs) = &t.ty.kind else { continue };
        let orders = ctx.pick(300, 3000);
        let vals = domain::values(t.ty, 2, 6, ctx.pick(150, 2000));
        for (part, vs) in vals.chunks(16).enumerate() {
            ctx.case(&format!("values {}", t.ty.name), &|| format!("part {part}"), || {
                let (mut n, mut acc) = (0, 0);
                for v in vs {
                    let Val::Struct(xs) = v else { unreachable!() };
                    let Some(texts) = xs.iter().map(text).collect::<Option<Vec<String>>>() else { continue };
                    n += mc::toml::Choices::all(orders, &mut |ch| {
                        let mut left: Vec<usize> = (0..fs.len()).collect();
                        let mut s: Vec<String> = vec![];
                        let mut exact = true;
                        while !left.is_empty() {
                            let i = left.remove(ch.pick(left.len()));
                            let (f, a, x) = (&fs[i], t.args[i], &texts[i]);
                            let long = format!("--{}", f.0);
                            let name = match a.short {
                                Some(c) if ch.pick(2) == 1 => format!("-{c}"),
                                _ => long,
                            };
                            if f.1().name == "bool" && !a.positional {
                                if x == "true" {
                                    s.push(name);
                                }
                            } else if a.positional && (f.1().name == "bool" || ch.pick(2) == 1) {
                                exact &= !x.starts_with('-') && !left.iter().any(|j| *j < i && t.args[*j].positional);
                                s.push(x.clone());
                            } else {
                                s.extend([name, x.clone()]);
                            }
                        }
                        let s: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
                        if exact && denote(t, &s).map(|v| mc::toml::canon(&v)) != Some(mc::toml::canon(v)) && !["A12"].contains(&t.ty.name.as_str()) {
                            return Err(format!("harness: {s:?} for {v:?} is {:?}", denote(t, &s)));
                        }
                        acc += agree(t, &s)? as u64;
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // as many arguments, and as long ones
    for n in domain::sizes(ctx.pick(1025, 10001)) {
        ctx.case("large", &|| n.to_string(), || {
            let (mut k, mut acc) = (0, 0);
            let long = [domain::text(n, false), domain::text(n, true), "-".repeat(n), "1".repeat(n), format!("{}1", "0".repeat(n))];
            for t in &targets {
                let Kind::Struct(fs) = &t.ty.kind else { continue };
                let mut base: Vec<String> = vec![];
                for f in fs {
                    match f.1().name.as_str() {
                        "bool" => base.push(format!("--{}", f.0)),
                        "Ipv4Addr" => base.extend([format!("--{}", f.0), "1.2.3.4".into()]),
                        _ => base.extend([format!("--{}", f.0), "1".into()]),
                    }
                }
                let mut go = |v: &[String]| -> Result<(), String> {
                    acc += agree(t, &v.iter().map(|x| x.as_str()).collect::<Vec<_>>())? as u64;
                    k += 1;
                    Ok(())
                };
                for (f, a) in fs.iter().zip(&t.args) {
                    for name in [Some(format!("--{}", f.0)), a.short.map(|c| format!("-{c}"))].into_iter().flatten() {
                        let group = if f.1().name == "bool" { vec![name] } else { vec![name, "1".into()] };
                        go(&[vec![group.clone(); n].concat(), base.clone()].concat())?;
                        go(&[base.clone(), vec![group; n].concat()].concat())?;
                    }
                    for x in &long {
                        go(&[base.clone(), vec![format!("--{}", f.0), x.clone()]].concat())?;
                    }
                }
                for x in &long {
                    go(&[base.clone(), vec![x.clone()]].concat())?;
                    go(&[vec![x.clone()], base.clone()].concat())?;
                }
                go(&[base.clone(), vec!["1".to_string(); n]].concat())?;
            }
            out(k, acc)
        });
    }
    // values
    let mut texts: Vec<String> = ["", "+", "-", "-0", "+0", "00", " 1", "1 ", "0x1", "1e3", "1.0", "1_0", "١", "true", "TRUE", "False", "yes", "0", "1", "nan", "inf", "-inf", "a=b", "--a", "-a", "--", "a b", "\u{10ffff}", "ab", "127.0.0.1", "1.2.3", "()", "A", "B", "tRuE ", "ſ"].map(String::from).to_vec();
    for bits in [0, 7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64, 65, 96, 126] {
        for d in -2i128..=2 {
            for s in [1, -1] {
                let i = s * ((1i128 << bits) + d);
                texts.extend([i.to_string(), format!("+{i}"), format!("000{i}"), format!("{i}.0"), format!("{i}.5")]);
            }
        }
    }
    texts.extend((0..0x200u32).filter_map(char::from_u32).map(|c| format!("{c}")));
    texts.extend((-70000..70000).step_by(ctx.pick(37, 1)).map(|i| i.to_string()));
    for t in &targets {
        let Kind::Struct(fs) = &t.ty.kind else { continue };
        for (i, f) in fs.iter().enumerate() {
            ctx.case(&format!("texts {}", t.ty.name), &|| f.0.into(), || {
                let (mut n, mut acc) = (0, 0);
                // the others
                let mut rest: Vec<String> = vec![];
                for (j, g) in fs.iter().enumerate() {
                    let x = match g.1().name.as_str() {
                        "bool" => continue,
                        "char" | "String" | "Cow<str>" => "q",
                        "Ipv4Addr" => "1.2.3.4",
                        _ => "1",
                    };
                    if j != i {
                        rest.extend([format!("--{}", g.0), x.into()]);
                    }
                }
                for x in &texts {
                    let (long, short) = (format!("--{}", f.0), format!("-{}", t.args[i].short.unwrap_or('?')));
                    let eq = format!("{long}={x}");
                    for own in [vec![long.as_str(), x], vec![&short, x], vec![x], vec![&eq]] {
                        let r: Vec<&str> = rest.iter().map(|x| x.as_str()).collect();
                        acc += agree(t, &[&own[..], &r[..]].concat())? as u64;
                        acc += agree(t, &[&r[..], &own[..]].concat())? as u64;
                        n += 2;
                    }
                }
                out(n, acc)
            });
        }
    }
}
