use mc::jsongen::sequences;
use mc::native::*;
use mc::toml::{Choices, Target};
use mc::yaml::Yaml::*;
use mc::yaml::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "Y01",
        level: "model_checking",
        rule: "into each target type (structs of u64 and strings, nested; and a range of types that aren't supported): the documents of all values over small domains in every spelling (block and flow, plain, quoted and literal, numeral bases, comments, explicit keys); of values with one text grown to 4097 characters; every member left out, repeated, renamed, moved or replaced; all trees to a depth; boundary numbers; every truncation, single-character change and span duplication; all token sequences to a length. The value must be the one the tree denotes, or the document refused, without panics or leaks",
        assumptions: "yaml-rust2 parses mutated texts for the reference as well; booleans count as 1 and 0 and texts of digits as numbers where a u64 is wanted; unknown keys are errors",
        run,
    });
}
fn out(n: u64, acc: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + acc.min(1), states: n, transitions: n })
}
fn trees(depth: usize, keys: &[Yaml], scalars: &[Yaml]) -> Vec<Yaml> {
    let mut out: Vec<Yaml> = scalars.to_vec();
    out.extend([Arr(vec![]), Map(vec![])]);
    if depth == 0 {
        return out;
    }
    let sub = trees(depth - 1, keys, scalars);
    for a in &sub {
        out.push(Arr(vec![a.clone()]));
        for (i, k) in keys.iter().enumerate() {
            out.push(Map(vec![(k.clone(), a.clone())]));
            for b in &sub {
                for l in &keys[i + 1..] {
                    out.push(Map(vec![(k.clone(), a.clone()), (l.clone(), b.clone())]));
                }
            }
        }
    }
    out
}
/// the paths of all mappings in a tree
fn maps(d: &Yaml, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    let subs: Vec<&Yaml> = match d {
        Map(m) => {
            out.push(path.clone());
            m.iter().map(|x| &x.1).collect()
        }
        Arr(v) => v.iter().collect(),
        _ => return,
    };
    for (i, d) in subs.into_iter().enumerate() {
        path.push(i);
        maps(d, path, out);
        path.pop();
    }
}
fn at<'a>(d: &'a mut Yaml, path: &[usize]) -> &'a mut Vec<(Yaml, Yaml)> {
    match (d, path.split_first()) {
        (Map(m), None) => m,
        (Map(m), Some((i, p))) => at(&mut m[*i].1, p),
        (Arr(v), Some((i, p))) => at(&mut v[*i], p),
        _ => unreachable!(),
    }
}
fn run(ctx: &mut Ctx) {
    let targets = targets();
    let long = ctx.pick(4097, 65537);
    for t in &targets {
        for (n, v) in domain::large(t.ty, long, 257, 65) {
            ctx.case(&format!("large {}", t.ty.name), &|| format!("{n}: {}", domain::show(&v)), || {
                let d = any_document(t.ty, &v);
                let (mut k, mut acc, mut lex) = (0, 0, n as u8);
                k += Choices::all(6, &mut |ch| {
                    lex = lex.wrapping_add(1);
                    acc += agree(t, &text(&d, lex % 4, ch), Some(&d))? as u64;
                    Ok(())
                })?;
                out(k, acc)
            });
        }
    }
    let (limit, spell) = (ctx.pick(300, 3000), ctx.pick(64, 512));
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 2, 6, limit);
        for (part, vs) in vals.chunks(16).enumerate() {
            ctx.case(&format!("values {}", t.ty.name), &|| format!("part {part}"), || {
                let (mut n, mut acc) = (0, 0);
                for v in vs {
                    let d = any_document(t.ty, v);
                    if document(t.ty, v).is_some_and(|e| e != d || denote(t.ty, &d).as_ref() != Some(v)) {
                        return Err(format!("harness: {d:?} for {v:?}"));
                    }
                    for lex in 0..4 {
                        n += Choices::all(spell, &mut |ch| {
                            let s = text(&d, lex, ch);
                            if parse(&s).as_ref() != Some(&d) {
                                return Err(format!("harness: {s:?} is {:?}, meant {d:?}", parse(&s)));
                            }
                            acc += agree(t, &s, Some(&d))? as u64;
                            Ok(())
                        })?;
                    }
                }
                out(n, acc)
            });
        }
    }
    // with a member left out, added, repeated, replaced, or in another order
    let foreign = [st("x"), Int(1), Int(-1), Bool(true), Null, Real("1.5".into()), Real("18446744073709551616".into()), st("17"), Map(vec![]), Arr(vec![]), Arr(vec![Int(1)]), Map(vec![(st("a"), Int(1)), (st("b"), st("x"))])];
    let keys = [st("zz"), st("a"), Int(1), Int(0), Null, Bool(true), Arr(vec![st("a")]), Map(vec![(st("a"), Int(1))])];
    let limit = ctx.pick(16, 100);
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 1, 6, limit);
        for (i, v) in vals.iter().enumerate() {
            ctx.case(&format!("members {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut acc) = (0, 0);
                let d = any_document(t.ty, v);
                let mut ps = vec![];
                maps(&d, &mut vec![], &mut ps);
                let mut go = |d: Yaml| -> Result<(), String> {
                    n += Choices::all(4, &mut |ch| {
                        let s = text(&d, i as u8 % 4, ch);
                        let p = parse(&s);
                        // (repeated keys are malformed)
                        if p.as_ref().is_some_and(|p| *p != d) {
                            return Err(format!("harness: {s:?} is {p:?}, meant {d:?}"));
                        }
                        acc += agree(t, &s, p.as_ref())? as u64;
                        Ok(())
                    })?;
                    Ok(())
                };
                for f in &foreign {
                    go(f.clone())?;
                }
                for p in ps {
                    let len = at(&mut d.clone(), &p).len();
                    for j in 0..=len {
                        for f in &foreign {
                            for k in &keys {
                                let mut e = d.clone();
                                at(&mut e, &p).insert(j, (k.clone(), f.clone()));
                                go(e)?;
                            }
                            if j < len {
                                let mut e = d.clone();
                                at(&mut e, &p)[j].1 = f.clone();
                                go(e)?;
                            }
                        }
                        if j < len {
                            let mut e = d.clone();
                            at(&mut e, &p).remove(j);
                            go(e)?;
                            let mut e = d.clone();
                            at(&mut e, &p).rotate_left(j);
                            go(e)?;
                            let mut e = d.clone();
                            at(&mut e, &p).reverse();
                            go(e)?;
                            for k in &keys {
                                let mut e = d.clone();
                                at(&mut e, &p)[j].0 = k.clone();
                                go(e)?;
                            }
                        }
                    }
                }
                out(n, acc)
            });
        }
    }
    // all trees
    let scalars = [Int(1), st("A"), st("7"), Null, Bool(false), Real("2.0".into())];
    let keys = [st("a"), st("b"), st("c"), st("0"), Int(1)];
    let mut docs = trees(1, &keys, &scalars);
    if !(ctx.pick(0, 1) == 0) {
        docs.extend(trees(2, &keys[..2], &scalars[..2]));
    }
    let inner = trees(1, &keys[..2], &scalars[..2]);
    for a in &inner {
        for k in ["x", "y", "z", "a", "t", "e"] {
            docs.push(Map(vec![(st(k), a.clone())]));
        }
        for b in inner.iter().step_by(ctx.pick(7, 1)) {
            for (k, l) in [("x", "y"), ("a", "b"), ("t", "u")] {
                docs.push(Map(vec![(st(k), a.clone()), (st(l), b.clone())]));
            }
        }
    }
    for t in &targets {
        for (part, ds) in docs.chunks(1024).enumerate() {
            ctx.case(&format!("trees {}", t.ty.name), &|| format!("part {part}"), || {
                let (mut n, mut acc) = (0, 0);
                for (i, d) in ds.iter().enumerate() {
                    n += Choices::all(2, &mut |ch| {
                        acc += agree(t, &text(d, i as u8 % 4, ch), Some(d))? as u64;
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // numbers
    let mut nums: Vec<String> = ["-0", "00", "007", "08", "0x1F", "0o17", "0b1", "1_000", "1e3", "1.0", "1.", ".5", "0.0", "+1", "++1", "+ 1", "--1", "- 1", "'1'", "\"-1\"", "'+1'", "' 1'", "'1 '", "!!int 1", "!!int '1'", "!!str 1", "!!float 1", "!!bool true", "!!null ~", "!x 1", "0x", "0xg", "1x", "yes", "no", "true", "True", "~", "null", "", "''", "&x 1", "*x", "'١'", "١", "'1\u{661}'"]
        .map(String::from)
        .to_vec();
    for bits in [0, 7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64, 65, 96, 126] {
        for d in -2i128..=2 {
            for s in [1, -1] {
                let i = s * ((1i128 << bits) + d);
                nums.extend([i.to_string(), format!("'{i}'"), format!("{i}.0"), format!("000{i}"), format!("+{i}"), format!("'+{i}'"), format!("'00{i}'")]);
                if i >= 0 {
                    nums.extend([format!("0x{i:x}"), format!("0o{i:o}"), format!("'0x{i:x}'")]);
                }
            }
        }
    }
    nums.extend((-70000..70000).map(|i| i.to_string()));
    for t in &targets {
        if !["YOne", "Y2", "YDeep"].contains(&t.ty.name.as_str()) {
            continue;
        }
        for (part, ns) in nums.chunks(10000).enumerate() {
            ctx.case(&format!("numbers {}", t.ty.name), &|| format!("part {part}"), || {
                let (mut n, mut acc) = (0, 0);
                for x in ns {
                    let s = match t.ty.name.as_str() {
                        "YOne" => format!("a: {x}\n"),
                        "Y2" => format!("a: {x}\nb: {x}\n"),
                        _ => format!("{{x: {{a: {{a: {x}, b: s}}, b: {{a: 1, b: {x}, c: s}}, c: t}}, y: {x}, z: {{a: {x}}}}}"),
                    };
                    let p = parse(&s);
                    // the number is read as what it is
                    if let (Ok(i), Some(Map(m)), "YOne") = (x.parse::<i128>(), &p, t.ty.name.as_str()) {
                        let w = u64::try_from(i).ok().map(|i| Val::I(i as i128));
                        if mc::yaml::denote(u64::ty(), &m[0].1) != w {
                            return Err(format!("harness: {x} is {w:?}, not {m:?}"));
                        }
                    }
                    acc += agree(t, &s, p.as_ref())? as u64;
                    n += 1;
                }
                out(n, acc)
            });
        }
    }
    // texts
    let mut texts: Vec<String> = ["A", "a.b", "- x", ": ", "? x", "{", "a: b", "# c", "a #b", "\n", "a\nb", "a\n\n b\n", "'", "\"", "\\", " ", "\u{10ffff}", "é\u{301}", "1.5", "true", "~", "null", "&a", "*a", "!t", "%", "@", "`", "---", "..."].map(String::from).to_vec();
    texts.extend((0..0x300u32).filter_map(char::from_u32).flat_map(|c| [format!("{c}"), format!("a{c}b")]));
    for t in &targets {
        if !["Y2", "YIn"].contains(&t.ty.name.as_str()) {
            continue;
        }
        ctx.case(&format!("texts {}", t.ty.name), &|| "all".into(), || {
            let (mut n, mut acc) = (0, 0);
            for x in &texts {
                let y2 = Map(vec![(st("a"), Int(1)), (st("b"), st(x))]);
                let d = if t.ty.name == "Y2" { y2 } else { Map(vec![(st("c"), st(x)), (st("b"), Map(vec![(st("c"), st(x)), (st("a"), Int(2)), (st("b"), Int(3))])), (st("a"), y2)]) };
                for lex in 0..4 {
                    n += Choices::all(16, &mut |ch| {
                        let s = text(&d, lex, ch);
                        if parse(&s).as_ref() != Some(&d) {
                            return Err(format!("harness: {s:?} is {:?}, meant {d:?}", parse(&s)));
                        }
                        acc += agree(t, &s, Some(&d))? as u64;
                        Ok(())
                    })?;
                }
            }
            out(n, acc)
        });
    }
    // faults
    let bytes = "[]{}:,-?'\"\\ \n\t#0|>&*!%@~x.\u{0}é";
    let limit = ctx.pick(3, 8);
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 3, 6, 40);
        let step = (vals.len() / limit).max(1);
        for v in vals.into_iter().step_by(step) {
            ctx.case(&format!("faults {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut acc) = (0, 0);
                let mut k = 0;
                let d = any_document(t.ty, &v);
                Choices::all(limit, &mut |ch| {
                    let s: Vec<char> = text(&d, k % 4, ch).chars().collect();
                    k += 1;
                    let mut go = |s: String| -> Result<(), String> {
                        acc += agree(t, &s, parse(&s).as_ref())? as u64;
                        n += 1;
                        Ok(())
                    };
                    for i in 0..=s.len() {
                        go(s[..i].iter().collect())?;
                        go(s[i..].iter().collect())?;
                        for c in bytes.chars() {
                            go(s[..i].iter().copied().chain([c]).chain(s[i..].iter().copied()).collect())?;
                            if i < s.len() {
                                go(s[..i].iter().copied().chain([c]).chain(s[i + 1..].iter().copied()).collect())?;
                            }
                        }
                        for w in 1..=3 {
                            if i + w <= s.len() {
                                go(s[..i].iter().chain(&s[i + w..]).collect())?;
                                go(s[..i + w].iter().chain(&s[i..]).collect())?;
                            }
                        }
                    }
                    // lines left out, repeated, moved
                    let lines: Vec<String> = s.iter().collect::<String>().lines().map(|l| format!("{l}\n")).collect();
                    for i in 0..lines.len() {
                        for j in 0..=lines.len() {
                            let mut l = lines.clone();
                            let x = l.remove(i);
                            go(l.concat())?;
                            l.insert(j.min(l.len()), x.clone());
                            go(l.concat())?;
                            l.insert(i, x);
                            go(l.concat())?;
                        }
                    }
                    Ok(())
                })?;
                out(n, acc)
            });
        }
    }
    // token sequences
    let tokens: Vec<&[u8]> = vec![b"a", b"b: ", b"a: ", b"-", b" ", b"\n", b"[", b"]", b"{", b"}", b",", b"1", b"'x'", b"&x ", b"*x"];
    let len = ctx.pick(5, 6);
    let chosen: Vec<&Target> = targets.iter().filter(|t| ["YOne", "Y2", "YEmpty", "u64", "Vec<u64>"].contains(&t.ty.name.as_str())).collect();
    for i in 0..tokens.len() {
        for j in 0..tokens.len() {
            ctx.case("token sequences", &|| format!("{i} {j} .."), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..=len - 2 {
                    sequences(&tokens, &[i, j], k, &mut |s| {
                        let s = std::str::from_utf8(s).unwrap();
                        let d = parse(s);
                        // malformed ones don't get as far as the type
                        for t in if d.is_some() { &chosen[..] } else { &chosen[..1] } {
                            acc += agree(t, s, d.as_ref())? as u64;
                            n += 1;
                        }
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // several documents, anchors, deep nesting
    let mut odd: Vec<String> = ["", "\n", "---", "---\n---\n", "a: 1\n---\na: 2\n", "a: 1\n...\n", "a: 1\n...\na: 2", "--- {a: 1}\n--- {a: 2}", "a: &x 1\nb: *x", "&x a: 1\nb: *x", "a: &a 1\nb: &a x\n", "&a a: &b 5\nb: *a", "&a {a: 1, b: *a}", "a: 1\n<<: {b: x}", "? a\n: 1\n? b\n: x", "a: 1\nb: |\n x\n y\n", "a: 1\nb: >\n x\n y\n", "a: 1\nb: |+\n x\n\n", "a: 1\nb: >-\n x\n\n y", "a: 1\nb: x\n y\n z\n", "a: 1\nb: 'x\n\n y'\n", "a: 1\nb: \"x\\\n y\"\n", "!!map {a: 1, b: x}", "a: !!int 1\nb: !!str 2", "\u{feff}a: 1\nb: x", "a: 1\r\nb: x\r\n", "a: 1\rb: x\r", "{\"a\":1,\"b\":\"x\"}", "{a: 1, b: x,}", "{a, b: x}", "[a: 1, b: x]"].map(String::from).to_vec();
    for depth in [1, 30, 127, 254, 255, 256, 300] {
        odd.push(format!("a: {}1{}", "[".repeat(depth), "]".repeat(depth)));
        odd.push(format!("{}1{}", "{a: ".repeat(depth), "}".repeat(depth)));
        odd.push(format!("{}1", "- ".repeat(depth)));
        odd.push((0..depth).map(|i| format!("{}a:\n", " ".repeat(i))).collect::<String>());
        odd.push("[".repeat(depth));
    }
    for t in &targets {
        ctx.case(&format!("odd {}", t.ty.name), &|| "all".into(), || {
            let (mut n, mut acc) = (0, 0);
            for s in &odd {
                acc += agree(t, s, parse(s).as_ref())? as u64;
                n += 1;
            }
            out(n, acc)
        });
    }
}
