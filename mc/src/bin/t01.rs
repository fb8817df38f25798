use mc::jsongen::sequences;
use mc::native::*;
use mc::toml::Toml::*;
use mc::toml::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "T01",
        level: "model_checking",
        rule: "into each target type: the documents of all values over small domains, in every spelling (tables by header, implied, inline or dotted; arrays inline or of tables; bare and quoted keys; kinds of strings and numbers; enum variants and one-field structs in each of their forms), with every member left out or foreign ones added, in several orders; of values with one string, array or table grown to 4097 characters or 257 elements, or nested to 49 levels, through sizes around every power of two; all trees to a depth over a set of scalars and keys; all boundary numbers; every truncation, single-character change and span duplication of valid documents; all token sequences to a length. The value must be the one the tree denotes according to a type-directed reference, or the document refused, without panics or leaks",
        assumptions: "toml_edit parses mutated texts for the reference as well; fields go by their Rust names; a single value may stand for the only field of a struct or variant, and tuple variants given as tables have members named by index; integers become the nearest float",
        run,
    });
}
fn out(n: u64, acc: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + acc.min(1), states: n, transitions: n })
}
fn root(d: Toml) -> Option<Vec<(String, Toml)>> {
    match d {
        Table(m) => Some(m),
        _ => None,
    }
}
/// all trees of a depth
fn trees(depth: usize, keys: &[&str], scalars: &[Toml], width: usize) -> Vec<Toml> {
    let mut out: Vec<Toml> = scalars.to_vec();
    out.extend([Arr(vec![]), Table(vec![])]);
    if depth == 0 {
        return out;
    }
    let sub = trees(depth - 1, keys, scalars, width);
    for a in &sub {
        out.push(Arr(vec![a.clone()]));
        for k in keys {
            out.push(Table(vec![(k.to_string(), a.clone())]));
        }
    }
    if width >= 2 {
        for a in &sub {
            for b in &sub {
                out.push(Arr(vec![a.clone(), b.clone()]));
                for (i, k) in keys.iter().enumerate() {
                    for l in &keys[i + 1..] {
                        out.push(Table(vec![(k.to_string(), a.clone()), (l.to_string(), b.clone())]));
                    }
                }
            }
        }
    }
    out
}
/// the paths of all tables in a tree
fn tables(d: &Toml, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    match d {
        Table(m) => {
            out.push(path.clone());
            for (i, (_, d)) in m.iter().enumerate() {
                path.push(i);
                tables(d, path, out);
                path.pop();
            }
        }
        Arr(v) => {
            for (i, d) in v.iter().enumerate() {
                path.push(i);
                tables(d, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(d: &'a mut Toml, path: &[usize]) -> &'a mut Vec<(String, Toml)> {
    match (d, path.split_first()) {
        (Table(m), None) => m,
        (Table(m), Some((i, p))) => at(&mut m[*i].1, p),
        (Arr(v), Some((i, p))) => at(&mut v[*i], p),
        _ => unreachable!(),
    }
}
fn run(ctx: &mut Ctx) {
    let targets = targets();
    let float = |f: f64| Float(f.to_bits());
    let st = |s: &str| Str(s.into());
    // every value, every spelling
    let (limit, spell) = (ctx.pick(200, 3000), ctx.pick(150, 3000));
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 1, 6, limit);
        for (part, vs) in vals.chunks(16).enumerate() {
            ctx.case(&format!("values {}", t.ty.name), &|| format!("part {part}"), || {
                let mut n = 0;
                let mut acc = 0;
                for (i, v) in vs.iter().enumerate() {
                    let mut lex = i as u8 % 4;
                    n += Choices::all(spell, &mut |ch| {
                        let Some(m) = document(t.ty, v, ch).and_then(root) else { return Ok(()) };
                        lex = (lex + 1) % 4;
                        let s = text(&m, lex, ch);
                        let d = Table(m);
                        // the spelling is what it's meant to be
                        let p = parse(&s).ok_or(format!("harness: {s:?} isn't TOML"))?;
                        if denote(t.ty, &p).map(|v| canon(&v)) != Some(canon(v)) {
                            return Err(format!("harness: {s:?} is {p:?}, meant {d:?} for {v:?}"));
                        }
                        agree(t, &s, Some(&d))?;
                        acc += 1;
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // with a member left out, added, replaced, or in another order
    let foreign = [st("x"), Int(1), Table(vec![]), Arr(vec![Table(vec![("a".into(), Int(1))]), Table(vec![])]), Table(vec![("zz".into(), Table(vec![("a".into(), Arr(vec![]))]))]), float(1.5), Date("1979-05-27".into()), Bool(true), Int(-1)];
    let limit = ctx.pick(12, 200);
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 1, 6, limit);
        for (i, v) in vals.iter().enumerate() {
            ctx.case(&format!("members {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut acc) = (0, 0);
                let Some(d) = document(t.ty, v, &mut Choices::default()) else { return out(0, 0) };
                let mut ps = vec![];
                tables(&d, &mut vec![], &mut ps);
                let mut go = |d: Toml| -> Result<(), String> {
                    let Some(m) = root(d) else { return Ok(()) };
                    let d = Table(m.clone());
                    n += Choices::all(4, &mut |ch| {
                        let s = text(&m, i as u8 % 4, ch);
                        if parse(&s).is_none() {
                            return Err(format!("harness: {s:?} isn't TOML"));
                        }
                        acc += agree(t, &s, Some(&d))? as u64;
                        Ok(())
                    })?;
                    Ok(())
                };
                for p in ps {
                    let len = at(&mut d.clone(), &p).len();
                    for j in 0..=len {
                        for f in &foreign {
                            let mut e = d.clone();
                            at(&mut e, &p).insert(j, ("zz".into(), f.clone()));
                            go(e)?;
                            if j < len {
                                let mut e = d.clone();
                                at(&mut e, &p)[j].1 = f.clone();
                                go(e)?;
                            }
                        }
                        if j < len {
                            let mut e = d.clone();
                            at(&mut e, &p).remove(j);
                            go(e)?;
                            let mut e = d.clone();
                            at(&mut e, &p).rotate_left(j);
                            go(e)?;
                            let mut e = d.clone();
                            at(&mut e, &p)[j].0 = "Zz z".into();
                            go(e)?;
                        }
                    }
                }
                out(n, acc)
            });
        }
    }
    // grown
    let (long, many, depth) = ctx.pick((4097, 257, 49), (65537, 1025, 75));
    for t in &targets {
        for (n, v) in domain::large(t.ty, long, many, depth) {
            ctx.case(&format!("large {}", t.ty.name), &|| format!("{n}: {}", domain::show(&v)), || {
                let (mut k, mut acc, mut lex) = (0, 0, n as u8);
                k += Choices::all(4, &mut |ch| {
                    let Some(m) = document(t.ty, &v, ch).and_then(root) else { return Ok(()) };
                    lex = lex.wrapping_add(1);
                    let s = text(&m, lex % 4, ch);
                    acc += agree(t, &s, Some(&Table(m)))? as u64;
                    Ok(())
                })?;
                out(k, acc)
            });
        }
    }
    // all trees
    let scalars = [Int(1), float(2.0), st("A"), Bool(false)];
    let keys = ["a", "0", "B", "A"];
    let small = trees(ctx.pick(1, 1), &keys, &scalars, 2);
    let mut docs: Vec<Vec<(String, Toml)>> = vec![];
    for a in &small {
        for k in ["a", "b", "0", "A", "B", "D", "m", "k y"] {
            docs.push(vec![(k.into(), a.clone())]);
        }
    }
    let less = trees(1, &["a", "B"], &[Int(300), st("A")], 1);
    for a in &less {
        for b in &less {
            for (k, l) in [("a", "b"), ("0", "1"), ("v", "kids"), ("b", "c"), ("x", "y"), ("A", "B")] {
                docs.push(vec![(k.into(), a.clone()), (l.into(), b.clone())]);
            }
        }
    }
    for t in &targets {
        for (part, ds) in docs.chunks(512).enumerate() {
            ctx.case(&format!("trees {}", t.ty.name), &|| format!("part {part}"), || {
                let (mut n, mut acc) = (0, 0);
                for (i, m) in ds.iter().enumerate() {
                    let d = Table(m.clone());
                    n += Choices::all(ctx_spell(i), &mut |ch| {
                        let s = text(m, 0, ch);
                        acc += agree(t, &s, Some(&d))? as u64;
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // numbers
    let mut nums: Vec<Toml> = vec![];
    for bits in [0, 7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64] {
        for d in -2i128..=2 {
            for s in [1, -1] {
                let i = s * ((1i128 << bits) + d);
                nums.extend(i64::try_from(i).ok().map(Int));
                for f in [0.0, 0.5, 0.25, -1e-9] {
                    nums.push(float(i as f64 + f));
                }
            }
        }
    }
    for e in -330..310 {
        for m in [1.0, 1.5, 1.9999999999999998, -3.3] {
            let f: f64 = format!("{m}e{e}").parse().unwrap();
            nums.push(float(f));
        }
    }
    for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f32::MAX as f64, f32::MAX as f64 * 1.00000002, 3.4028235677973366e38, f64::MIN_POSITIVE, 1e-45, 16777217.0, 9007199254740993.0] {
        nums.push(float(f));
    }
    for t in &targets {
        let Kind::Map(_, v) = &t.ty.kind else { continue };
        if !matches!(v().kind, Kind::Leaf) {
            continue;
        }
        ctx.case(&format!("numbers {}", t.ty.name), &|| "all".into(), || {
            let (mut n, mut acc) = (0, 0);
            for x in &nums {
                for lex in 0..4 {
                    let m = vec![("n".to_string(), x.clone())];
                    let s = text(&m, lex, &mut Choices::default());
                    acc += agree(t, &s, Some(&Table(m)))? as u64;
                    n += 1;
                }
            }
            for s in (-300i64..300).map(|i| i * 1000 / 7).chain(-70000..70000) {
                let m = vec![("n".to_string(), Int(s))];
                acc += agree(t, &format!("n={s}"), Some(&Table(m)))? as u64;
                n += 1;
            }
            out(n, acc)
        });
    }
    // texts
    let mut texts: Vec<String> = ["A", "a.b", "[x]", "\n", "'''", "\"\"\"", "a\\", " ", "#", "\u{7f}", "\u{10ffff}", "é\u{301}", "1.5", "true"].map(String::from).to_vec();
    texts.extend((0..0x300u32).filter_map(char::from_u32).map(|c| format!("{c}")));
    for t in &targets {
        let of_text = |t: &'static Ty| ["String", "Cow<str>"].contains(&t.name.as_str()) || t.parse.is_some();
        let Kind::Map(_, v) = &t.ty.kind else { continue };
        if !of_text(v()) {
            continue;
        }
        ctx.case(&format!("texts {}", t.ty.name), &|| "all".into(), || {
            let (mut n, mut acc) = (0, 0);
            for x in &texts {
                for lex in 0..4 {
                    for m in [vec![("n".to_string(), st(x))], vec![(x.clone(), Int(1))], vec![(x.clone(), Bool(true))], vec![(x.clone(), st("::1")), (format!("{x}x"), st(x))]] {
                        let s = text(&m, lex, &mut Choices::default());
                        acc += agree(t, &s, Some(&Table(m)))? as u64;
                        n += 1;
                    }
                }
            }
            out(n, acc)
        });
    }
    // faults
    let bytes = "[]{}=.,\"'\\ \n#019-+exaA_tT:\u{0}é";
    let limit = ctx.pick(2, 8);
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 3, 6, 40);
        let step = (vals.len() / limit).max(1);
        for v in vals.into_iter().step_by(step) {
            ctx.case(&format!("faults {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut acc) = (0, 0);
                let mut k = 0;
                Choices::all(limit, &mut |ch| {
                    let Some(m) = document(t.ty, &v, ch).and_then(root) else { return Ok(()) };
                    let s: Vec<char> = text(&m, k % 4, ch).chars().collect();
                    k += 1;
                    let mut go = |s: String| -> Result<(), String> {
                        acc += agree(t, &s, parse(&s).as_ref())? as u64;
                        n += 1;
                        Ok(())
                    };
                    for i in 0..=s.len() {
                        go(s[..i].iter().collect())?;
                        go(s[i..].iter().collect())?;
                        for c in bytes.chars() {
                            go(s[..i].iter().copied().chain([c]).chain(s[i..].iter().copied()).collect())?;
                            if i < s.len() {
                                go(s[..i].iter().copied().chain([c]).chain(s[i + 1..].iter().copied()).collect())?;
                            }
                        }
                        for w in 1..=3 {
                            if i + w <= s.len() {
                                go(s[..i].iter().chain(&s[i + w..]).collect())?;
                                go(s[..i + w].iter().chain(&s[i..]).collect())?;
                            }
                        }
                    }
                    // whole lines left out, twice, and moved
                    let lines: Vec<String> = s.iter().collect::<String>().lines().map(|l| format!("{l}\n")).collect();
                    for i in 0..lines.len() {
                        for j in 0..=lines.len() {
                            let mut l = lines.clone();
                            let x = l.remove(i);
                            go(l.concat())?;
                            l.insert(j.min(l.len()), x.clone());
                            go(l.concat())?;
                            l.insert(i, x);
                            go(l.concat())?;
                        }
                    }
                    Ok(())
                })?;
                out(n, acc)
            });
        }
    }
    // token sequences
    let tokens: Vec<&[u8]> = vec![b"a", b"b", b"=", b".", b"[", b"]", b"{", b"}", b",", b"\n", b"'A'", b"1", b"B"];
    let len = ctx.pick(5, 7);
    let some = ["TOpt", "TE", "S2", "TMaps", "TLists", "HashMap<String,TE>"];
    let chosen: Vec<&Target> = targets.iter().filter(|t| some.contains(&t.ty.name.as_str()) || t.ty.name.ends_with("HashMap<String,u8>>") || t.ty.name.contains("Vec<u8>>")).collect();
    for i in 0..tokens.len() {
        for j in 0..tokens.len() {
            ctx.case("token sequences", &|| format!("{i} {j} .."), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..=len - 2 {
                    sequences(&tokens, &[i, j], k, &mut |s| {
                        let s = std::str::from_utf8(s).unwrap();
                        let d = parse(s);
                        // malformed ones don't get as far as the type
                        for t in if d.is_some() { &chosen[..] } else { &chosen[..1] } {
                            acc += agree(t, s, d.as_ref())? as u64;
                            n += 1;
                        }
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // deep nesting
    for depth in [1, 2, 30, 79, 100, 127, 1000, 100000] {
        ctx.case("deep", &|| format!("{depth}"), || {
            let (mut n, mut acc) = (0, 0);
            for s in [format!("kids = {}", "[".repeat(depth)), format!("v=1\nkids={}{}", "[{v=1,kids=".repeat(depth), "[]}]".repeat(depth)), format!("{}a=1", "a.".repeat(depth)), format!("[{}a]", "a.".repeat(depth)), format!("a={}1{}", "{a=".repeat(depth), "}".repeat(depth))] {
                for t in targets.iter().filter(|t| ["TTree", "S2", "TE"].contains(&t.ty.name.as_str())) {
                    acc += agree(t, &s, parse(&s).as_ref())? as u64;
                    n += 1;
                }
            }
            out(n, acc)
        });
    }
}
fn ctx_spell(i: usize) -> usize {
    if i % 7 == 0 { 16 } else { 2 }
}
