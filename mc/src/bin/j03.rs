use mc::fmt::*;
use mc::json::{self, Doc};
use mc::jsongen::*;
use mc::native::*;
use mc::universe::*;
use mc::*;
use std::collections::HashMap;
use std::num::NonZero;

fn main() {
    mc::main(Check {
        id: "J03",
        level: "model_checking",
        rule: "into each target type: all sequences of JSON tokens to a length; all documents to a depth over a set of scalars and keys; every truncation, and single-byte deletion, substitution, insertion, span duplication and swap of the documents of the type's values, in three spellings; the documents of values grown to 65537 characters, 1025 elements or 257 levels, and unknown members grown to 1025 characters, digits, elements, members or levels, through sizes around every power of two; all texts over the characters of numbers to a length; all texts over the characters of escapes to a length; every \\uXXXX and every surrogate pair. Each is parsed by an independent strict parser and given a meaning by a type-directed reference, which the result must match: same value, or refused",
        assumptions: "floats out of range are refused; a string fits a scalar if the scalar's own FromStr accepts it; maps, enums, arrays and pointers have no JSON reading and refuse everything",
        run,
    });
}
fn batch(n: u64, accepted: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + accepted.min(1), states: n, transitions: n })
}
fn targets() -> Vec<&'static Ty> {
    let mut v = both_ways();
    v.extend([
        JE::ty(), E::ty(), <HashMap<String, u8>>::ty(), <[u8; 2]>::ty(), <std::sync::Arc<u8>>::ty(), <Option<Option<u8>>>::ty(), char::ty(), <()>::ty(),
        <Vec<E>>::ty(), <Vec<HashMap<String, u8>>>::ty(), <Option<E>>::ty(), SE::ty(), <Vec<()>>::ty(), <Option<()>>::ty(), Z::ty(),
    ]);
    v
}
fn run(ctx: &mut Ctx) {
    // token sequences
    let tokens: Vec<&[u8]> = vec![b"{", b"}", b"[", b"]", b":", b",", b"\"a\"", b"\"b\"", b"1", b"true", b"null", b" ", b"-", b"0", b"\""];
    let types = [<Vec<u8>>::ty(), <Vec<Option<bool>>>::ty(), Two::ty(), Deny::ty(), Def::ty(), <Vec<Vec<String>>>::ty(), ListS::ty(), <Option<One>>::ty()];
    let len = ctx.pick(5, 7);
    for i in 0..tokens.len() {
        for j in 0..tokens.len() {
            ctx.case("token sequences", &|| format!("{} {} ..", String::from_utf8_lossy(tokens[i]), String::from_utf8_lossy(tokens[j])), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..=len - 2 {
                    sequences(&tokens, &[i, j], k, &mut |s| {
                        let d = json::parse(s);
                        for t in types {
                            acc += agree(t, s, d.as_ref(), false)? as u64;
                            n += 1;
                        }
                        Ok(())
                    })?;
                }
                batch(n, acc)
            });
        }
    }
    // documents of every kind into every type
    let num = |n: &str| Doc::Num(n.into());
    let st = |n: &str| Doc::Str(n.into());
    let scalars = [
        Doc::Null, Doc::Bool(true), num("0"), num("1"), num("-1"), num("1.5"), num("1e2"), num("256"), num("-0"), num("1e400"), num("18446744073709551616"), num("9007199254740993"), st(""), st("a"), st("1"), st("true"), st("é"),
    ];
    let few = [Doc::Null, Doc::Bool(true), num("0"), num("1"), st("a")];
    let targets = targets();
    for t in &targets {
        let mut keys: Vec<&str> = vec!["zz"];
        if let Kind::Struct(f) = &t.kind {
            keys.extend(f.iter().map(|x| x.0).take(4));
            keys.extend(attrs(t).renames.iter().map(|x| x.1));
        } else {
            keys.push("a");
        }
        let two = &keys[..keys.len().min(2)];
        let sets = [docs(1, &keys, &scalars, 2), docs(2, &keys, &few, 1), docs(3, two, &few, 1), if ctx.thorough() { docs(2, two, &few[..3], 2) } else { vec![] }];
        for (i, set) in sets.iter().enumerate() {
            for (j, chunk) in set.chunks(2000).enumerate() {
                ctx.case(&format!("documents {}", t.name), &|| format!("set {i} part {j}"), || {
                    let mut acc = 0;
                    for d in chunk {
                        acc += agree(t, &render(d, (j % 3) as u8), Some(d), false)? as u64;
                    }
                    batch(chunk.len() as u64, acc)
                });
            }
        }
    }
    // token sequences where they're skipped
    let tokens: Vec<&[u8]> = vec![b"{", b"}", b"[", b"]", b":", b",", b"\"a\"", b"1", b"null"];
    let len = ctx.pick(6, 8);
    for i in 0..tokens.len() {
        for j in 0..tokens.len() {
            ctx.case("skipped tokens", &|| format!("{} {} ..", String::from_utf8_lossy(tokens[i]), String::from_utf8_lossy(tokens[j])), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..=len - 2 {
                    sequences(&tokens, &[i, j], k, &mut |s| {
                        for (t, pre, post) in [(One::ty(), &b"{\"a\":1,\"zz\":"[..], &b"}"[..]), (One::ty(), b"{\"zz\":", b",\"a\":1}"), (UnitLike::ty(), b"{\"b\":[", b"]}")] {
                            let s = [pre, s, post].concat();
                            let d = json::parse(&s);
                            acc += agree(t, &s, d.as_ref(), false)? as u64;
                            n += 1;
                        }
                        Ok(())
                    })?;
                }
                batch(n, acc)
            });
        }
    }
    // mutations of documents with members to skip
    for (t, s) in [
        (One::ty(), r#"{"zz":[{"k":[1,{}]},"s\\",[]],"a":1}"#), (One::ty(), r#"{"a":1,"zz":{"a":2,"b":{"a":[true,false]},"c":null}}"#), (Ren::ty(), r#"{"b":5,"zz":[-1.5e3],"x\"\\\n":"u","c":null}"#),
        (CDef::ty(), r#"{"":"é\u00e9\ud83d\ude00","a":3,"o":false}"#), (Def::ty(), r#"{"zz":0,"yy":-0.1E+2,"xx":"","c":true,"f":{"a":[]},"ee":[1]}"#), (<Vec<Two>>::ty(), r#"[{"a":1,"b":"","c":[[]]},{"c":{"d":{}},"b":"x","a":2}]"#),
    ] {
        assert!(json::parse(s.as_bytes()).and_then(|d| json::denote(t, &d, attrs)).is_some(), "{s}");
        let step = if ctx.thorough() { 1 } else { 3 };
        for part in 0..s.len() {
            if ctx.thorough() || part == 0 {
                ctx.case("mutations with unknown members", &|| format!("{} {s} {part}", t.name), || {
                    let (mut n, mut acc) = (0, 0);
                    let mut i = 0;
                    mutate(s.as_bytes(), &mut |m| {
                        i += 1;
                        if part > 0 {
                            // a second change, at one place
                            if i % step != 0 || part >= m.len() {
                                return Ok(());
                            }
                            for b in BYTES {
                                let mut m = m.to_vec();
                                m[part] = *b;
                                let d = json::parse(&m);
                                acc += agree(t, &m, d.as_ref(), false)? as u64;
                                n += 1;
                            }
                            return Ok(());
                        }
                        let d = json::parse(m);
                        acc += agree(t, m, d.as_ref(), false)? as u64;
                        n += 1;
                        Ok(())
                    })?;
                    batch(n, acc)
                });
            }
        }
    }
    // every nesting, where it's skipped and where it's read
    let nests = nests(ctx.pick(5, 7));
    for t in [One::ty(), Two::ty(), Ren::ty(), Def::ty(), CDef::ty(), <Vec<Vec<u16>>>::ty(), Chain::ty(), Tree::ty(), UnitLike::ty(), Deny::ty()] {
        for (i, part) in nests.chunks(200).enumerate() {
            ctx.case(&format!("nested {}", t.name), &|| format!("part {i}"), || {
                let (mut n, mut acc) = (0, 0);
                for d in part {
                    let mut go = |d: Doc, style| -> Result<(), String> {
                        acc += agree(t, &render(&d, style), Some(&d), false)? as u64;
                        n += 1;
                        Ok(())
                    };
                    go(d.clone(), 0)?;
                    for style in 0..3 {
                        go(Doc::Obj(vec![("a".into(), num("1")), ("zz".into(), d.clone()), ("b".into(), st("x")), ("c".into(), Doc::Bool(true))]), style)?;
                    }
                    go(Doc::Obj(vec![("a".into(), num("1")), ("b".into(), st("x")), ("x\"\\\n".into(), st("y")), ("zz".into(), d.clone())]), 0)?;
                    go(Doc::Obj(vec![("zz".into(), d.clone()), ("name".into(), st("n")), ("kids".into(), Doc::Arr(vec![])), ("v".into(), num("1")), ("next".into(), Doc::Arr(vec![]))]), 0)?;
                }
                batch(n, acc)
            });
        }
    }
    // mutations of fitting documents
    let limit = ctx.pick(6, 40);
    for t in &targets {
        if ["Big", "Tree"].contains(&t.name.as_str()) && !ctx.thorough() {
            continue;
        }
        for (i, v) in domain::values(t, 1, 5, limit * 4).into_iter().step_by(4).enumerate() {
            for style in 0..3 {
                let Some(d) = json::document(t, &v, attrs) else { continue };
                let s = render(&d, style);
                if s.len() > 400 {
                    continue;
                }
                ctx.case(&format!("mutations {}", t.name), &|| format!("{i} {}", String::from_utf8_lossy(&s)), || {
                    let (mut n, mut acc) = (0, 0);
                    agree(t, &s, Some(&d), false)?;
                    mutate(&s, &mut |m| {
                        let d = json::parse(m);
                        acc += agree(t, m, d.as_ref(), false)? as u64;
                        n += 1;
                        Ok(())
                    })?;
                    batch(n, acc)
                });
                if ctx.thorough() && s.len() <= 24 && i < 3 {
                    // all pairs of mutations
                    ctx.case(&format!("double mutations {}", t.name), &|| format!("{i} {}", String::from_utf8_lossy(&s)), || {
                        let (mut n, mut acc) = (0, 0);
                        mutate(&s, &mut |m| {
                            mutate(m, &mut |m| {
                                let d = json::parse(m);
                                acc += agree(t, m, d.as_ref(), false)? as u64;
                                n += 1;
                                Ok(())
                            })
                        })?;
                        batch(n, acc)
                    });
                }
            }
        }
    }
    large(ctx);
    // numbers
    let chars: Vec<&[u8]> = vec![b"-", b"0", b"1", b"2", b"5", b"9", b".", b"e", b"E", b"+", b"\"", b" "];
    let nums = [u8::ty(), i8::ty(), u64::ty(), i64::ty(), f64::ty(), f32::ty(), <NonZero<u8>>::ty(), String::ty(), bool::ty()];
    let len = ctx.pick(6, 7);
    for i in 0..chars.len() {
        for j in 0..chars.len() {
            ctx.case("number texts", &|| format!("{} {} ..", String::from_utf8_lossy(chars[i]), String::from_utf8_lossy(chars[j])), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..=len - 2 {
                    sequences(&chars, &[i, j], k, &mut |s| {
                        let d = json::parse(s);
                        for (x, t) in nums.iter().enumerate() {
                            // the longest into the most telling types only
                            if k + 2 == len && ![0, 3, 4].contains(&x) {
                                continue;
                            }
                            acc += agree(t, s, d.as_ref(), false)? as u64;
                            n += 1;
                        }
                        Ok(())
                    })?;
                }
                batch(n, acc)
            });
        }
    }
    let ints = [
        u8::ty(), i8::ty(), u16::ty(), i16::ty(), u32::ty(), i32::ty(), u64::ty(), i64::ty(), usize::ty(), isize::ty(), f32::ty(), f64::ty(),
        <NonZero<u8>>::ty(), <NonZero<u16>>::ty(), <NonZero<u32>>::ty(), <NonZero<u64>>::ty(), <NonZero<usize>>::ty(),
        <NonZero<i8>>::ty(), <NonZero<i16>>::ty(), <NonZero<i32>>::ty(), <NonZero<i64>>::ty(), <NonZero<isize>>::ty(),
    ];
    for t in ints {
        ctx.case("boundary numbers", &|| t.name.clone(), || {
            let (mut n, mut acc) = (0, 0);
            let mut go = |s: String| -> Result<(), String> {
                for s in [s.clone(), format!("\"{s}\""), format!("{s}.0"), format!("{s}e0"), format!("{s}0e-1"), format!("{s}.5"), format!("{s}E+1"), format!("{s}00.00e-2")] {
                    let d = json::parse(s.as_bytes());
                    acc += agree(t, s.as_bytes(), d.as_ref(), false)? as u64;
                    n += 1;
                }
                Ok(())
            };
            for b in 0..66 {
                for d in -2i128..=2 {
                    for m in [1i128, -1] {
                        go((m * (1i128 << b) + d).to_string())?;
                    }
                }
            }
            for e in -330..320 {
                for m in ["1", "-1", "9.99", "1.7976931348623157", "1.7976931348623159", "3.4028234", "3.4028236", "4.9", "0", "0.000", "123456789012345678901234567890"] {
                    go(format!("{m}e{e}"))?;
                }
            }
            for s in ["1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "-0e-99999999999999999999", "1e+0000000000000000000001", "10000000000000000000000000000000000000000e-40", "0.00000000000000000000000000000000000000001e41"] {
                go(s.into())?;
            }
            batch(n, acc)
        });
    }
    // escapes
    let chars: Vec<&[u8]> = vec![b"\\", b"u", b"d", b"8", b"0", b"C", b"\"", b"n", b"/", b"\x01", b"\xc3", b"\xa9", b"\xf0"];
    let len = ctx.pick(5, 6);
    for i in 0..chars.len() {
        for j in 0..chars.len() {
            ctx.case("string texts", &|| format!("{i} {j} .."), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..=len - 2 {
                    sequences(&chars, &[i, j], k, &mut |s| {
                        let s = [b"\"", s, b"\""].concat();
                        let d = json::parse(&s);
                        acc += agree(String::ty(), &s, d.as_ref(), false)? as u64;
                        if k + 2 < len {
                            // as the name of a member to skip, and of a known one
                            for (a, b) in [(&b"{\"a\":1,"[..], &b":[]}"[..]), (b"{\"a\":1,\"z\":", b"}"), (b"{\"a\":1,\"z\":{", b":0}}")] {
                                let s = [a, &s, b].concat();
                                let d = json::parse(&s);
                                acc += agree(One::ty(), &s, d.as_ref(), false)? as u64;
                            }
                        }
                        n += 1;
                        Ok(())
                    })?;
                }
                batch(n, acc)
            });
        }
    }
    for hi in 0..256u32 {
        ctx.case("unicode escapes", &|| format!("\\u{hi:02x}.."), || {
            let (mut n, mut acc) = (0, 0);
            for lo in 0..256u32 {
                for s in [format!("\"\\u{hi:02x}{lo:02X}\""), format!("\"x\\u{hi:02X}{lo:02x}\\n\""), format!("\"\\u{hi:02X}{lo:02x}\\udc00\""), format!("\"\\ud800\\u{hi:02X}{lo:02x}\"")] {
                    let d = json::parse(s.as_bytes());
                    acc += agree(String::ty(), s.as_bytes(), d.as_ref(), false)? as u64;
                    n += 1;
                }
            }
            batch(n, acc)
        });
    }
    for hi in 0..1024u32 {
        ctx.case("surrogate pairs", &|| format!("\\u{:04x}", 0xd800 + hi), || {
            for lo in 0..1024u32 {
                let s = format!("\"\\u{:04x}\\u{:04X}\"", 0xd800 + hi, 0xdc00 + lo);
                let d = Doc::Str(char::from_u32(0x10000 + hi * 1024 + lo).unwrap().to_string());
                agree(String::ty(), s.as_bytes(), Some(&d), false)?;
            }
            batch(1024, 1)
        });
    }
}

/// grown texts: whole, cut short, and with something that is not JSON in the middle or at the end
fn large(ctx: &mut Ctx) {
    let (long, many, depth) = ctx.pick((65537, 1025, 257), (65537, 10001, 1025));
    for t in both_ways() {
        for (i, (n, v)) in domain::large(t, long, many, depth).into_iter().enumerate() {
            ctx.case(&format!("large {}", t.name), &|| format!("{n}: {}", domain::show(&v)), || {
                let Some(d) = json::document(t, &v, attrs) else { return ok() };
                // what is wrong is told apart from a place only where that place is cheap to find
                let s = render(&d, (i % 3) as u8);
                if !agree(t, &s, Some(&d), false)? {
                    return Err("refused".into());
                }
                let mut k = 1;
                if s.len() < 3000 || i % 8 == 0 {
                    let mut bad = s.clone();
                    bad.extend(b" ]");
                    agree(t, &bad, None, false)?;
                    let mut cut = s.clone();
                    while cut.last().is_some_and(|c| c.is_ascii_whitespace()) {
                        cut.pop();
                    }
                    cut.pop();
                    agree(t, &cut, None, false)?;
                    let mut bad = s.clone();
                    let at = s.len() / 2;
                    bad[at] = 1;
                    agree(t, &bad, None, false)?;
                    k += 3;
                }
                batch(k, 1)
            });
        }
    }
    // skipped
    for n in domain::sizes(ctx.pick(1025, 4097)) {
        ctx.case("large skipped", &|| n.to_string(), || {
            let st = |s: String| Doc::Str(s);
            let num = Doc::Num("1".into());
            let mut forms = vec![
                st(domain::text(n, false)), st(domain::text(n, true)), st("\n\"".repeat(n)), Doc::Arr(vec![num.clone(); n]), Doc::Num("1".repeat(n)), Doc::Num(format!("0.{}1e-{}", "0".repeat(n), n)),
                Doc::Obj((0..n).map(|i| (format!("a{i}"), Doc::Null)).collect()), Doc::Arr(vec![st(String::new()); n]), Doc::Obj(vec![(domain::text(n, true), num.clone())]),
            ];
            let (mut arr, mut obj, mut mix) = (Doc::Arr(vec![]), Doc::Obj(vec![]), num.clone());
            for i in 0..n.min(1025) {
                arr = Doc::Arr(vec![arr, num.clone()]);
                obj = Doc::Obj(vec![("a".into(), obj), ("b".into(), num.clone())]);
                mix = if i % 2 == 0 { Doc::Arr(vec![num.clone(), mix]) } else { Doc::Obj(vec![("a".into(), mix)]) };
            }
            forms.extend([arr, obj, mix]);
            let (mut k, mut acc) = (0, 0);
            for (i, f) in forms.into_iter().enumerate() {
                for (at, t) in [(0, One::ty()), (1, One::ty()), (1, Two::ty()), (0, Deny::ty())] {
                    let mut ms = vec![("a".to_string(), num.clone()), ("b".into(), st("x".into()))];
                    ms.insert(at, ("zz".into(), f.clone()));
                    let d = Doc::Obj(ms);
                    let mut s = render(&d, ((n + i) % 3) as u8);
                    acc += agree(t, &s, Some(&d), false)? as u64;
                    // a bracket of the wrong kind, or nothing, at the end
                    let e = s.iter().rposition(|c| *c == b'}').unwrap();
                    s[e] = b']';
                    agree(t, &s, None, false)?;
                    agree(t, &s[..e], None, false)?;
                    k += 3;
                }
            }
            // as many members, known and unknown
            for t in [One::ty(), Two::ty(), Ren::ty(), Def::ty(), CDef::ty()] {
                for name in ["a", "b", "zz"] {
                    let mut ms = vec![(name.to_string(), num.clone()); n];
                    ms.extend([("a".to_string(), num.clone()), ("b".into(), if t.name == "Ren" { num.clone() } else { st("y".into()) }), ("c".into(), Doc::Bool(true)), ("x\"\\\n".into(), st("u".into()))]);
                    let d = Doc::Obj(ms);
                    acc += agree(t, &render(&d, (n % 3) as u8), Some(&d), false)? as u64;
                    k += 1;
                }
            }
            batch(k, acc)
        });
    }
}
