use mc::form::*;
use mc::jsongen::sequences;
use mc::native::*;
use mc::toml::Target;
use mc::*;

fn main() {
    mc::main(Check {
        id: "U01",
        level: "model_checking",
        rule: "into each target type (structs of u64 and strings, nested; and types that aren't supported): the forms of all values over small domains, in several encodings and all orders of pairs; of values with one text grown to 4097 characters, and with as many as 1025 further pairs; with pairs left out, repeated, and unknown ones added; all sequences of pairs to a length over known, nested, malformed and unknown keys; all sequences of tokens to a length; every truncation, single-byte change and span duplication; boundary numbers; every byte and escape; keys nested thousands deep. The value must be the one the form denotes, or the form refused, always with the same error, without panics or leaks",
        assumptions: "the last of several pairs with the same key counts; keys that aren't of the form a[b][c] are names of their own; invalid UTF-8 is replaced",
        run,
    });
}
fn out(n: u64, acc: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + acc.min(1), states: n, transitions: n })
}
fn join(ps: &[(String, String)], lex: u8) -> String {
    ps.iter().map(|(k, v)| format!("{}={}", encode(k, lex), encode(v, lex))).collect::<Vec<_>>().join(if lex == 3 { "&&" } else { "&" })
}
fn orders(n: usize, f: &mut dyn FnMut(&[usize]) -> Result<(), String>) -> Result<(), String> {
    fn go(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize]) -> Result<(), String>) -> Result<(), String> {
        if k == v.len() {
            return f(v);
        }
        for i in k..v.len() {
            v.swap(k, i);
            go(v, k + 1, f)?;
            v.swap(k, i);
        }
        Ok(())
    }
    let mut v: Vec<usize> = (0..n).collect();
    if n <= 6 {
        return go(&mut v, 0, f);
    }
    for i in 0..n {
        v.rotate_left(1);
        f(&v)?;
        v.reverse();
        f(&v)?;
        v.reverse();
        v.swap(0, i);
        f(&v)?;
        v.swap(0, i);
    }
    Ok(())
}
fn run(ctx: &mut Ctx) {
    let targets = targets();
    let limit = ctx.pick(400, 4000);
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 2, 6, limit);
        for (part, vs) in vals.chunks(32).enumerate() {
            ctx.case(&format!("values {}", t.ty.name), &|| format!("part {part}"), || {
                let (mut n, mut acc) = (0, 0);
                for v in vs {
                    let mut ps = vec![];
                    document(t.ty, v, "", &mut ps);
                    for lex in 0..4 {
                        let s = join(&ps, lex);
                        if pairs(&s) != ps {
                            return Err(format!("harness: {s:?} is {:?}, meant {ps:?}", pairs(&s)));
                        }
                        let got = agree(t, &s)?;
                        if got && denote(t.ty, &s).as_ref() != Some(v) {
                            return Err(format!("harness: {s:?} for {v:?}"));
                        }
                        acc += got as u64;
                        n += 1;
                    }
                }
                out(n, acc)
            });
        }
    }
    let long = ctx.pick(4097, 65537);
    for t in &targets {
        for (n, v) in domain::large(t.ty, long, 257, 65) {
            ctx.case(&format!("large {}", t.ty.name), &|| format!("{n}: {}", domain::show(&v)), || {
                let mut ps = vec![];
                document(t.ty, &v, "", &mut ps);
                let mut acc = 0;
                for lex in 0..4 {
                    acc += agree(t, &join(&ps, lex))? as u64;
                }
                out(4, acc)
            });
        }
    }
    // as many unknown pairs, or repetitions of a known one
    for n in domain::sizes(ctx.pick(1025, 10001)) {
        ctx.case("large many pairs", &|| n.to_string(), || {
            let (mut k, mut acc) = (0, 0);
            for t in targets.iter().filter(|t| ["Y2", "YIn", "YWide", "UNest"].contains(&t.ty.name.as_str())) {
                let v = gens_ty(t.ty, 3, 1, 6).remove(0);
                let mut ps = vec![];
                document(t.ty, &v, "", &mut ps);
                for (key, val) in [("zz", "1"), ("", ""), ("zz[a][b]", "x"), (ps[0].0.as_str(), "7"), ("a[zz]", "x")] {
                    for at in [0, ps.len() / 2, ps.len()] {
                        let mut q = ps[..at].to_vec();
                        q.extend((0..n).map(|i| (if key == "zz" { format!("zz{i}") } else { key.to_string() }, val.to_string())));
                        q.extend(ps[at..].to_vec());
                        acc += agree(t, &join(&q, (k % 4) as u8))? as u64;
                        k += 1;
                    }
                }
            }
            out(k, acc)
        });
    }
    // all orders, with pairs left out, repeated, replaced and added
    let limit = ctx.pick(4, 24);
    let values = ["x", "1", "", "-1", "18446744073709551616", " 1", "1.0", "a[b]"];
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 2, 6, limit);
        for v in vals {
            ctx.case(&format!("pairs {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut acc) = (0, 0);
                let mut ps = vec![];
                document(t.ty, &v, "", &mut ps);
                let mut keys: Vec<String> = ["zz", "", "a", "b", "zz[a]", "a[a]", "c", "e[x]", "[a]", "[]", "a[]"].map(String::from).to_vec();
                for (k, _) in &ps {
                    keys.extend([format!("{k}[x]"), format!("{k}]"), format!("{k}["), format!(" {k}"), format!("{k} "), format!("{k}x"), format!("[{k}]"), format!("x[{k}]"), k.replace("][", "].["), k.replace("][", ""), k.replace(']', "]]"), k.replace('[', "[["), k.to_uppercase(), k.clone()]);
                    if let Some(i) = k.rfind('[') {
                        keys.push(k[..i].to_string());
                    }
                    if let Some(i) = k.find('[') {
                        keys.extend([k[..i].to_string(), format!("{}[{}", &k[..i], &k[i + 1..k.len() - 1])]);
                    }
                }
                let mut go = |ps: &[(String, String)], lex: u8| -> Result<(), String> {
                    let s = join(ps, lex);
                    if pairs(&s) != ps {
                        return Err(format!("harness: {s:?} is {:?}, meant {ps:?}", pairs(&s)));
                    }
                    acc += agree(t, &s)? as u64;
                    n += 1;
                    Ok(())
                };
                orders(ps.len(), &mut |o| go(&o.iter().map(|i| ps[*i].clone()).collect::<Vec<_>>(), 0))?;
                for i in 0..ps.len() {
                    let mut q = ps.clone();
                    let x = q.remove(i);
                    go(&q, 1)?;
                    q.push(x);
                    go(&q, 2)?;
                    for v in values {
                        for j in 0..=ps.len() {
                            let mut q = ps.clone();
                            q.insert(j, (ps[i].0.clone(), v.into()));
                            go(&q, 0)?;
                        }
                        q = ps.clone();
                        q[i].1 = v.into();
                        go(&q, 3)?;
                    }
                }
                for k in &keys {
                    for v in &values[..3] {
                        for j in 0..=ps.len() {
                            let mut q = ps.clone();
                            q.insert(j, (k.clone(), v.to_string()));
                            go(&q, 0)?;
                            if j < ps.len() {
                                q.remove(j + 1);
                                go(&q, 0)?;
                            }
                        }
                    }
                }
                out(n, acc)
            });
        }
    }
    // all sequences of pairs
    let keys = ["a", "b", "c", "c[a]", "c[b]", "a[a]", "a[b]", "c[a][a]", "c[a][b]", "c[c][0]", "c[c][1]", "b[a]", "c[", "c]", "a[a]b", "a[a", "a]a[", "[a]", "c[a]]", "c[[a]", "c[a[b]]", "ca", "zz", "zz[a]", "", "A", "0", "1", "1[a]", "1[b]", "a[]"];
    let values = ["1", "x"];
    let all: Vec<String> = keys.iter().flat_map(|k| values.map(|v| format!("{k}={v}&"))).collect();
    let tokens: Vec<&[u8]> = all.iter().map(|s| s.as_bytes()).collect();
    let chosen: Vec<&Target> = targets.iter().filter(|t| ["Y2", "Y3", "YIn", "YTup", "UTup", "UHold", "UNest", "UKeys"].contains(&t.ty.name.as_str())).collect();
    let len = 3;
    for i in 0..tokens.len() {
        ctx.case("sequences of pairs", &|| format!("{} ..", all[i]), || {
            let (mut n, mut acc) = (0, 0);
            for k in 0..len {
                sequences(&tokens, &[i], k, &mut |s| {
                    let s = std::str::from_utf8(s).unwrap();
                    for t in &chosen {
                        acc += agree(t, s)? as u64;
                        n += 1;
                    }
                    Ok(())
                })?;
            }
            out(n, acc)
        });
    }
    // longer ones over fewer keys
    for (t, keys) in [("Y2", &["a=1&", "b=x&", "a[b]=1&", "b[=1&", "a=x&", "c=1&"][..]), ("UNest", &["a[a]=1&", "a[b]=1&", "b[a]=1&", "c[a][a]=1&", "c[a][b]=1&", "c[c][0]=1&", "c[c][1]=1&"]), ("YIn", &["a[a]=1&", "a[b]=x&", "b[a]=2&", "b[b]=3&", "b[c]=y&", "c=z&", "c[a]=1&"])] {
        let t = targets.iter().find(|x| x.ty.name == t).unwrap();
        let tokens: Vec<&[u8]> = keys.iter().map(|s| s.as_bytes()).collect();
        let len = ctx.pick(7, 9);
        for i in 0..tokens.len() {
            ctx.case(&format!("longer sequences of pairs {}", t.ty.name), &|| format!("{} ..", keys[i]), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..len {
                    sequences(&tokens, &[i], k, &mut |s| {
                        acc += agree(t, std::str::from_utf8(s).unwrap())? as u64;
                        n += 1;
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // token sequences
    let tokens: Vec<&[u8]> = vec![b"a", b"b", b"=", b"&", b"[", b"]", b"+", b"%", b"%5B", b"%5d", b"1", b"%31", "é".as_bytes(), b"%fF", b";", b"%"];
    let len = ctx.pick(5, 6);
    let chosen: Vec<&Target> = targets.iter().filter(|t| ["YOne", "Y2", "YHold"].contains(&t.ty.name.as_str())).collect();
    for i in 0..tokens.len() {
        for j in 0..tokens.len() {
            ctx.case("token sequences", &|| format!("{i} {j} .."), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..=len - 2 {
                    sequences(&tokens, &[i, j], k, &mut |s| {
                        let s = std::str::from_utf8(s).unwrap();
                        for t in &chosen {
                            acc += agree(t, s)? as u64;
                            n += 1;
                        }
                        acc += agree(chosen[1], &format!("a=1&b={s}"))? as u64;
                        n += 1;
                        Ok(())
                    })?;
                }
                out(n, acc)
            });
        }
    }
    // numbers and texts
    let mut texts: Vec<String> = ["", "+", "-", "-0", "+0", "00", " 1", "1 ", "0x1", "1e3", "1.0", "1_0", "١", "\u{661}1", "true", "a=b", "a&b", "%41", "%", "%%", "%4", "%zz", "+ +", "\u{0}", "é\u{301}", "\u{10ffff}", "\u{fffd}", "a\r\nb"].map(String::from).to_vec();
    for bits in [0, 7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64, 65, 96, 126] {
        for d in -2i128..=2 {
            for s in [1, -1] {
                let i = s * ((1i128 << bits) + d);
                texts.extend([i.to_string(), format!("+{i}"), format!("000{i}"), format!("{i}.0"), format!("{i} ")]);
            }
        }
    }
    texts.extend((0..0x300u32).filter_map(char::from_u32).map(|c| format!("{c}")));
    texts.extend((0..20000).map(|i| i.to_string()));
    for t in &targets {
        if !["YOne", "Y2", "YIn"].contains(&t.ty.name.as_str()) {
            continue;
        }
        for (part, ts) in texts.chunks(4000).enumerate() {
            ctx.case(&format!("texts {}", t.ty.name), &|| format!("part {part}"), || {
                let (mut n, mut acc) = (0, 0);
                for x in ts {
                    for lex in 0..4 {
                        let e = encode(x, lex);
                        let mut forms = vec![format!("a={e}"), format!("a=1&b={e}&a[{e}]=1"), format!("{e}=1&a=2&b=x"), format!("a[a]={e}&a[b]={e}&b[a]=1&b[b]={e}&b[c]=c&c={e}"), format!("a={e}&b=x")];
                        // not encoded
                        forms.extend([format!("a={x}"), format!("a=1&b={x}"), format!("{x}=1&a=2&b=x")]);
                        for s in forms {
                            acc += agree(t, &s)? as u64;
                            n += 1;
                        }
                    }
                }
                out(n, acc)
            });
        }
    }
    // every byte, escaped, and every pair of them
    let t = targets.iter().find(|t| t.ty.name == "Y2").unwrap();
    for hi in 0..16u32 {
        ctx.case("escapes", &|| format!("{hi:x}"), || {
            let (mut n, mut acc) = (0, 0);
            for lo in 0..16 {
                for b in 0..=255u8 {
                    let x = hi * 16 + lo;
                    for s in [format!("a=7&b=%{hi:x}{lo:X}%{b:02x}"), format!("a=7&b=%e2%{x:02x}%{b:02X}z"), format!("a=7&b=x&%{x:02x}%{b:02x}=9"), format!("a=%{x:02x}%{b:02x}&b=x")] {
                        acc += agree(t, &s)? as u64;
                        n += 1;
                    }
                }
            }
            out(n, acc)
        });
    }
    // faults
    let bytes = "[]=&+% 1a\u{0}é;";
    let limit = ctx.pick(3, 8);
    for t in &targets {
        let vals: Vec<Val> = domain::values(t.ty, 3, 6, 40);
        let step = (vals.len() / limit).max(1);
        for v in vals.into_iter().step_by(step) {
            ctx.case(&format!("faults {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut acc) = (0, 0);
                let mut ps = vec![];
                document(t.ty, &v, "", &mut ps);
                for lex in 0..4 {
                    let s: Vec<char> = join(&ps, lex).chars().collect();
                    let mut go = |s: String| -> Result<(), String> {
                        acc += agree(t, &s)? as u64;
                        n += 1;
                        Ok(())
                    };
                    for i in 0..=s.len() {
                        go(s[..i].iter().collect())?;
                        go(s[i..].iter().collect())?;
                        for c in bytes.chars() {
                            go(s[..i].iter().copied().chain([c]).chain(s[i..].iter().copied()).collect())?;
                            if i < s.len() {
                                go(s[..i].iter().copied().chain([c]).chain(s[i + 1..].iter().copied()).collect())?;
                            }
                        }
                        for w in 1..=4 {
                            if i + w <= s.len() {
                                go(s[..i].iter().chain(&s[i + w..]).collect())?;
                                go(s[..i + w].iter().chain(&s[i..]).collect())?;
                            }
                        }
                    }
                }
                out(n, acc)
            });
        }
    }
    // deep and long ones
    for depth in [10, 1000, 20000, 100000] {
        ctx.case("deep", &|| format!("{depth}"), || {
            let (mut n, mut acc) = (0, 0);
            let x = |s: &str| s.repeat(depth);
            for s in [format!("a=1&b=x&z{}=1", x("[a]")), format!("a=1&b=x&a{}=1", x("[a]")), format!("c{}=1", x("[a]")), format!("a=1&b=x&{}", x("[")), format!("a=1&b=x&{}", x("]")), format!("a=1&b=x&z{}{}", x("[a"), x("]")), format!("a=1&b=x{}", x("&")), format!("{}a=1&b=x", x("b=y&")), format!("a={}&b={}", x("0"), x("y")), x("%"), x("=")] {
                for t in targets.iter().filter(|t| ["Y2", "YIn"].contains(&t.ty.name.as_str())) {
                    acc += agree(t, &s)? as u64;
                    n += 1;
                }
            }
            out(n, acc)
        });
    }
}
