use mc::fmt::*;
use mc::jsongen::*;
use mc::native::*;
use mc::universe::*;
use mc::*;
use std::collections::HashMap;

fn main() {
    mc::main(Check {
        id: "J04",
        level: "model_checking",
        rule: "into each target type: all byte strings over a JSON-relevant alphabet to a length, on their own and inside an unfinished value; every truncation and single-byte change of a set of documents; documents nested very deeply. Run under the tracking allocator: no panic, hang, leak, double free or write after free; the error displays, and the place it shows is in the input",
        assumptions: "the error's place is read from its display, and is only checked for input that is valid UTF-8",
        run,
    });
}
fn batch(n: u64, acc: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + acc.min(1), states: n, transitions: n })
}
fn one(t: &'static Ty, s: &[u8]) -> Result<u64, String> {
    match read_json(t, s, true) {
        Ok(Read::Val(_)) => Ok(1),
        Ok(Read::Refused) => Ok(0),
        Err(m) => Err(format!("{:?} as {}: {m}", String::from_utf8_lossy(s), t.name)),
    }
}
fn run(ctx: &mut Ctx) {
    let types = [Nest::ty(), <Vec<Option<String>>>::ty(), Def::ty(), f64::ty(), SE::ty(), <Vec<Two>>::ty()];
    let small: Vec<&[u8]> = vec![b"{", b"}", b"[", b"]", b":", b",", b"\"", b"\\", b"u", b"n", b"1", b"-", b"e", b".", b" ", b"\n", b"\x00", b"\xc3", b"\xa9", b"\xff", b"a"];
    let len = ctx.pick(3, 5);
    // on their own, and where a parser is in the middle of something
    let before: [&[u8]; 12] = [
        b"", b"[", b"[\"a\",", b"{\"a\":1,\"b\":", b"{\"p\":{\"a\":1,\"z\":2},\"r\":[{\"c\":true}", b"{\"zz\":{\"a\":[", b"\xc3\xa9", b"{\"r\":[{\"b\":\"\xc3\xa9\",", b"[null,null", b"{\"p\":{\"z\":null,\"a\":2},\"q\":{\"b\":\"x\",\"v\":[1,", b"{\"e\":\"A\",\"o\":\"x\",", b"[{\"a\":1,\"b\":\"x\"},{",
    ];
    for (bi, b) in before.iter().enumerate() {
        for i in 0..small.len() {
            ctx.case("byte strings", &|| format!("after {:?}, starting with {:?}", String::from_utf8_lossy(b), String::from_utf8_lossy(small[i])), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..len {
                    if bi > 5 && k == 4 {
                        continue;
                    }
                    sequences(&small, &[i], k, &mut |s| {
                        let s = [b, s].concat();
                        for t in types {
                            acc += one(t, &s)?;
                            n += 1;
                        }
                        Ok(())
                    })?;
                }
                batch(n, acc)
            });
        }
    }
    // every pair of bytes
    for a in 0..=255u8 {
        ctx.case("bytes", &|| format!("{a:#x}"), || {
            let (mut n, mut acc) = (0, 0);
            for t in types {
                acc += one(t, &[a])?;
                for b in 0..=255u8 {
                    acc += one(t, &[a, b])?;
                    acc += one(t, &[b'[', b'"', a, b])?;
                    acc += one(t, &[b'{', b'"', a, b'"', b])?;
                    n += 3;
                }
            }
            batch(n, acc)
        });
    }
    // unfinished and odd escapes, in values, names that are unknown, and names that aren't allowed
    let toks: Vec<&[u8]> = vec![b"\\", b"\\u", b"\\ud83d", b"\\ude00", b"\\n", b"\\u0061", b"\\u00E9", "é".as_bytes(), "😀".as_bytes(), b"a", b"\"", b"\n", b"0"];
    let len = ctx.pick(4, 5);
    for (t, pre, post) in [(String::ty(), "\"", "\""), (Deny::ty(), "{\"a\":1,\"", "\":1}"), (Deny::ty(), "{\"", ""), (One::ty(), "{\"", "\":{},\"a\":1}"), (<Vec<u8>>::ty(), "[\"é", "\"]"), (CDeny::ty(), "{\"b\":\"", "\",\"é\":0"), (Deny::ty(), "{\"é\\n", "\""), (u8::ty(), "\n", "\n"), (<Vec<bool>>::ty(), "[\"é😀\",", "")] {
        for i in 0..toks.len() {
            ctx.case("escapes", &|| format!("{} {pre} {}.. {post}", t.name, String::from_utf8_lossy(toks[i])), || {
                let (mut n, mut acc) = (0, 0);
                for k in 0..len {
                    sequences(&toks, &[i], k, &mut |s| {
                        let s = [pre.as_bytes(), s, post.as_bytes()].concat();
                        acc += one(t, &s)?;
                        n += 1;
                        Ok(())
                    })?;
                }
                batch(n, acc)
            });
        }
    }
    let mut all = both_ways();
    all.extend([JE::ty(), SE::ty(), <HashMap<String, u8>>::ty(), <Vec<E>>::ty(), <[u8; 2]>::ty(), <std::sync::Arc<u8>>::ty(), Arr::ty()]);
    let limit = ctx.pick(3, 20);
    for t in &all {
        for (i, v) in domain::values(t, 1, 5, limit * 7).into_iter().step_by(7).enumerate() {
            for style in 0..3 {
                let Some(d) = json::document(t, &v, attrs) else { continue };
                let s = render(&d, style);
                if s.len() > 200 {
                    continue;
                }
                ctx.case(&format!("mutations {}", t.name), &|| format!("{i} {}", String::from_utf8_lossy(&s)), || {
                    let (mut n, mut acc) = (0, 0);
                    mutate(&s, &mut |m| {
                        acc += one(t, m)?;
                        n += 1;
                        Ok(())
                    })?;
                    batch(n, acc)
                });
                // into other types
                if style == 0 && i == 0 {
                    for u in &all {
                        ctx.case(&format!("other {}", t.name), &|| format!("as {}: {}", u.name, String::from_utf8_lossy(&s)), || {
                            let mut acc = 0;
                            for k in 0..=s.len() {
                                acc += one(u, &s[..k])?;
                            }
                            batch(s.len() as u64, acc)
                        });
                    }
                }
            }
        }
    }
    // deep
    for (t, a, z) in [(Two::ty(), &b"{\"zz\":"[..], &b"}"[..]), (<Vec<u8>>::ty(), b"[", b"]"), (<Vec<Vec<u16>>>::ty(), b"[", b"]"), (Chain::ty(), b"{\"v\":1,\"next\":[", b"]}"), (Tree::ty(), b"{\"name\":\"\",\"kids\":[", b"]}"), (One::ty(), b"{\"zz\":[", b"]}")] {
        for depth in [1usize, 10, 100, 1000, 20000] {
            // the values themselves are dropped recursively
            if depth > 1000 && ["Chain", "Tree"].contains(&t.name.as_str()) {
                continue;
            }
            for cut in [0usize, 1, 2] {
                ctx.case("deep", &|| format!("{} {depth} {cut} {:?}", t.name, String::from_utf8_lossy(a)), || {
                    let mut s = vec![];
                    if t.name == "Two" || t.name == "One" {
                        s.extend(b"{\"a\":1,\"b\":\"\",\"y\":");
                    }
                    for _ in 0..depth {
                        s.extend(a);
                    }
                    if t.name == "Two" {
                        s.push(b'0');
                    }
                    for _ in 0..depth / (cut + 1) {
                        s.extend(z);
                    }
                    if t.name == "Two" || t.name == "One" {
                        s.push(b'}');
                    }
                    let r = one(t, &s).map_err(|e| e.chars().rev().take(400).collect::<String>().chars().rev().collect::<String>())?;
                    let should = cut == 0 && !(t.name.starts_with("Vec<u8") && depth > 1) && !(t.name.starts_with("Vec<Vec") && depth > 2);
                    if (r == 1) != should {
                        return Err(format!("{}", if r == 1 { "accepted" } else { "refused" }));
                    }
                    batch(depth as u64, r)
                });
            }
        }
    }
}
