use mc::msgpack::*;
use mc::native::*;
use mc::universe::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "M02",
        level: "model_checking",
        rule: "into each target type: all byte strings to a length over representatives of every marker class (and all byte strings to two bytes), on their own and in the middle of a map; all documents to a depth in every width; unknown members of every kind and every marker; all member sequences to a length; texts, members to skip and numbers of members grown to 1025, through sizes around every power of two; every truncation, single-byte change and deletion of valid encodings; deep nesting. The result must be what an independent reader and a type-directed reference say, under the tracking allocator",
        assumptions: "bytes after the value are ignored; when a member occurs several times the last one counts, maps may be merged",
        run,
    });
}
fn one(t: &'static Ty, b: &[u8]) -> Result<u64, String> {
    let mut rest = b;
    agree(t, b, read(&mut rest).as_ref())
}
fn agree(t: &'static Ty, b: &[u8], m: Option<&Mp>) -> Result<u64, String> {
    mc::at(b);
    let mut got: Result<Option<Val>, String> = Ok(None);
    let (_, rep) = tracked(|| {
        let r = catching(|| match facet_msgpack::from_slice_value(facet_reflect::Wip::alloc_shape((t.shape)()), b) {
            Ok(h) => (t.materialize)(h),
            Err(e) => {
                let s = format!("{e} {e:?}");
                untracked(|| {
                    if s.len() < 3 {
                        got = Err("empty error".into());
                    }
                });
                None
            }
        });
        match r {
            Ok(None) => {}
            Ok(Some(v)) => untracked(|| got = Ok(Some(v.clone()))),
            Err(m) => untracked(|| got = Err(format!("panic: {m}"))),
        }
    });
    let bad = |m: String| Err(format!("{:x?} as {}: {m}", &b[..b.len().min(200)], t.name));
    if !rep.clean() {
        return bad(format!("memory: {}", rep.describe()));
    }
    let want = m.and_then(|m| decode(t, m, Twice::Last));
    match (got, want) {
        (Err(m), _) => bad(m),
        (Ok(g), w) if g == w => Ok(g.is_some() as u64),
        (Ok(Some(g)), _) if m.and_then(|m| decode(t, m, Twice::Merge)).as_ref() == Some(&g) => Ok(1),
        (Ok(Some(g)), Some(w)) => bad(format!("decoded as {g:?} instead of {w:?}")),
        (Ok(Some(g)), None) => bad(format!("decoded as {g:?}")),
        (Ok(None), Some(w)) => bad(format!("refused instead of {w:?}")),
        (Ok(None), None) => unreachable!(),
    }
}
fn batch(n: u64, acc: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + acc.min(1), states: n, transitions: n })
}
fn strings(alpha: &[u8], buf: &mut Vec<u8>, n: usize, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    f(buf)?;
    if n == 0 {
        return Ok(());
    }
    for a in alpha {
        buf.push(*a);
        strings(alpha, buf, n - 1, f)?;
        buf.pop();
    }
    Ok(())
}
fn s(x: &str) -> Mp {
    Mp::Str(x.as_bytes().to_vec())
}
/// a value of every kind, in every width, and within others
fn kinds() -> Vec<Mp> {
    let mut v = vec![Mp::Nil, Mp::Bool(true), Mp::Bool(false), Mp::F32(1), Mp::F64(2), s(""), s("a"), Mp::Str(vec![0xff]), Mp::Str(vec![b'x'; 32]), Mp::Str(vec![b'x'; 256]), Mp::Str(vec![b'y'; 65536])];
    for i in [0i128, 1, 127, 128, 255, 256, 65535, 65536, u32::MAX as i128, 1 << 32, u64::MAX as i128, -1, -32, -33, -128, -129, -32768, -32769, i32::MIN as i128, i32::MIN as i128 - 1, i64::MIN as i128] {
        v.push(Mp::Int(i));
    }
    for n in [0usize, 1, 2, 3, 4, 8, 16, 17, 256, 65536] {
        v.push(Mp::Bin(vec![0xc1; n]));
        v.push(Mp::Ext(5, vec![0x93; n]));
    }
    for n in [0usize, 1, 2, 15, 16, 17] {
        v.push(Mp::Arr(vec![Mp::Int(1); n]));
        v.push(Mp::Map(vec![(Mp::Int(1), s("a")); n]));
        v.push(Mp::Map(vec![(s("a"), Mp::Int(1)); n]));
    }
    v.push(Mp::Arr(vec![Mp::Nil; 65536]));
    let flat = v.clone();
    for x in &flat {
        v.push(Mp::Arr(vec![x.clone(), Mp::Int(-5), x.clone()]));
        v.push(Mp::Map(vec![(x.clone(), s("b")), (s("a"), x.clone())]));
    }
    v
}
fn run(ctx: &mut Ctx) {
    macro_rules! table { ($($t:ty),* $(,)?) => { vec![$(<$t>::ty()),*] } }
    let mut types: Vec<&'static Ty> = msgpack_types!(table);
    types.extend([SE::ty(), <Vec<u8>>::ty(), <Option<u8>>::ty(), f64::ty(), E::ty(), <std::collections::HashMap<String, u8>>::ty(), <()>::ty(), char::ty(), usize::ty(), <[u8; 2]>::ty(), SD::ty(), <std::sync::Arc<String>>::ty()]);
    // all byte strings
    let few = [u8::ty(), i64::ty(), bool::ty(), String::ty(), MOne::ty(), MTwo::ty(), MNest::ty(), UnitLike::ty(), <Vec<u8>>::ty(), f64::ty()];
    for a in 0..=255u8 {
        ctx.case("bytes", &|| format!("{a:#x}"), || {
            let (mut n, mut acc) = (0, 0);
            for t in &types {
                acc += one(t, &[a])?;
                for b in 0..=255u8 {
                    acc += one(t, &[a, b])?;
                    acc += one(t, &[0x82, 0xa1, b'z', a, b, 0xa1, b'a', 7])?;
                    n += 2;
                }
            }
            for t in few {
                for b in 0..=255u8 {
                    for c in [0u8, 1, 0x7f, 0x80, 0xa1, 0xc0, 0xd9, 0xff, b'a'] {
                        acc += one(t, &[a, b, c])?;
                        n += 1;
                    }
                }
            }
            batch(n, acc)
        });
    }
    let alpha = [0x00u8, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0xa0, 0xa1, 0xbf, b'a', b'b', 0xc0, 0xc1, 0xc3, 0xc4, 0xc7, 0xc9, 0xca, 0xcc, 0xcf, 0xd0, 0xd3, 0xd4, 0xd8, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff];
    let len = ctx.pick(3, 4);
    let starts: [&[u8]; 9] = [b"", b"\x81", b"\x81\xa1", b"\x81\xa1a", b"\x82\xa1a\x07\xa1z", b"\x82\xa1z", b"\x82\xa1b\xa0\xa1a", b"\x83\xa1r\xff\xa1q\x81\xa1a", b"\x83\xa1r\xff\xa1q\x81\xa1a\x01\xa1p\x82\xa1b\xa1\x41"];
    for (si, st) in starts.iter().enumerate() {
        for a in alpha {
            ctx.case("byte strings", &|| format!("after {st:x?} {a:#x}"), || {
                let (mut n, mut acc) = (0, 0);
                let mut buf = st.to_vec();
                buf.push(a);
                let ts: &[&'static Ty] = if si == 0 { &few } else { &[MOne::ty(), MTwo::ty(), MNest::ty(), UnitLike::ty()] };
                strings(&alpha, &mut buf, len - 1, &mut |b| {
                    for t in ts {
                        acc += one(t, b)?;
                        n += 1;
                    }
                    Ok(())
                })?;
                batch(n, acc)
            });
        }
    }
    // every kind into every type, in every width; as an unknown member, a field's value, and a key
    let kinds = kinds();
    for (ki, k) in kinds.iter().enumerate() {
        ctx.case("kinds", &|| format!("{ki}: {}", format!("{k:?}").chars().take(60).collect::<String>()), || {
            let (mut n, mut acc) = (0, 0);
            for wide in 0..8 {
                for t in &types {
                    acc += agree(t, &bytes(k, wide), Some(k))?;
                    n += 1;
                    if let Kind::Struct(f) = &t.kind {
                        for at in 0..3 {
                            for name in ["zz", "a", "", "\u{0}", f.last().map(|f| f.0).unwrap_or("b")] {
                                let Some(Mp::Map(mut m)) = domain::values(t, 1, 5, 2).first().and_then(|v| encode(t, v)) else { continue };
                                m.insert(at.min(m.len()), (s(name), k.clone()));
                                let m = Mp::Map(m);
                                acc += agree(t, &bytes(&m, wide), Some(&m))?;
                                n += 1;
                            }
                        }
                        let Some(Mp::Map(mut m)) = domain::values(t, 1, 5, 2).first().and_then(|v| encode(t, v)) else { continue };
                        m.insert(0, (k.clone(), Mp::Nil));
                        let m = Mp::Map(m);
                        acc += agree(t, &bytes(&m, wide), Some(&m))?;
                    }
                }
            }
            batch(n, acc)
        });
    }
    // members in any order and number
    for (t, q, th) in [(MOne::ty(), 4, 5), (MTwo::ty(), 4, 5), (MNest::ty(), 3, 4), (MDeep::ty(), 3, 4), (MTup::ty(), 4, 5), (UnitLike::ty(), 4, 5), (MInts::ty(), 2, 3), (<(i64, (bool, u16))>::ty(), 3, 4)] {
        let Kind::Struct(fs) = &t.kind else { unreachable!() };
        let mut ms: Vec<(Mp, Mp)> = vec![(s("zz"), Mp::Int(1)), (s("zz"), Mp::Map(vec![(s("a"), Mp::Arr(vec![Mp::Int(300)]))])), (s("zz"), Mp::Nil), (Mp::Int(0), Mp::Nil)];
        for f in fs {
            for v in domain::values(f.1(), 1, 5, 2).iter().take(2) {
                ms.push((s(f.0), encode(f.1(), v).unwrap()));
            }
            ms.push((s(f.0), Mp::Nil));
            if let Some(Mp::Map(m)) = domain::values(f.1(), 1, 5, 2).first().and_then(|v| encode(f.1(), v)) {
                for i in 0..m.len() {
                    let mut m = m.clone();
                    m.remove(i);
                    ms.push((s(f.0), Mp::Map(m)));
                }
                ms.push((s(f.0), Mp::Map(vec![])));
            }
        }
        let len = ctx.pick(q, th);
        let full: Vec<(Mp, Mp)> = fs.iter().map(|f| (s(f.0), encode(f.1(), &domain::values(f.1(), 2, 5, 2)[0]).unwrap())).collect();
        for first in 0..ms.len() {
            ctx.case("members", &|| format!("{} {first}", t.name), || {
                let (mut n, mut acc) = (0, 0);
                for l in 1..=len {
                    for i in 0..ms.len().pow(l as u32 - 1) {
                        let mut seq = vec![ms[first].clone()];
                        let mut i = i;
                        for _ in 1..l {
                            seq.push(ms[i % ms.len()].clone());
                            i /= ms.len();
                        }
                        if l <= 2 {
                            for at in 0..=full.len() {
                                let mut x = full[..at].to_vec();
                                x.extend(seq.clone());
                                x.extend(full[at..].to_vec());
                                let m = Mp::Map(x);
                                acc += agree(t, &bytes(&m, (at % 3) as u8), Some(&m))?;
                                n += 1;
                            }
                        }
                        let m = Mp::Map(seq);
                        acc += agree(t, &bytes(&m, 0), Some(&m))?;
                        n += 1;
                    }
                }
                batch(n, acc)
            });
        }
    }
    // grown: values, parts to skip, members
    for n in domain::sizes(ctx.pick(1025, 65537)) {
        ctx.case("large", &|| n.to_string(), || {
            let (mut k, mut acc) = (0, 0);
            for t in &types {
                for v in domain::sized(t, n, (true, false), 5) {
                    let Some(m) = encode(t, &v) else { continue };
                    for wide in [0, 1, 3] {
                        acc += agree(t, &bytes(&m, wide), Some(&m))?;
                        k += 1;
                    }
                }
            }
            let grown = [
                Mp::Arr(vec![Mp::Int(300); n]), Mp::Arr(vec![s("a"); n]), Mp::Map(vec![(s("a"), Mp::Int(1)); n]), Mp::Str(vec![b'x'; n]), Mp::Bin(vec![0x81; n]), Mp::Ext(3, vec![0xa1; n]), Mp::Arr(vec![Mp::Arr(vec![Mp::Nil]); n]),
            ];
            for t in [MOne::ty(), MTwo::ty(), MNest::ty(), M17::ty(), UnitLike::ty()] {
                let Some(Mp::Map(full)) = domain::values(t, 2, 5, 2).first().and_then(|v| encode(t, v)) else { unreachable!() };
                let mut forms: Vec<Vec<(Mp, Mp)>> = vec![];
                for g in &grown {
                    for at in [0, full.len()] {
                        let mut m = full.clone();
                        m.insert(at, (s("zz"), g.clone()));
                        forms.push(m);
                    }
                }
                // as many members: unknown, known, with long names
                for at in [0, full.len() / 2, full.len()] {
                    for extra in [Some((s("zz"), Mp::Nil)), full.first().cloned(), full.last().cloned(), Some((Mp::Str(vec![b'z'; 40]), Mp::Map(vec![(s("a"), s("b"))])))].into_iter().flatten() {
                        if n > 5000 && at > 0 {
                            continue;
                        }
                        let mut m = full[..at].to_vec();
                        m.extend(vec![extra; n]);
                        m.extend(full[at..].to_vec());
                        forms.push(m);
                    }
                }
                for (i, m) in forms.into_iter().enumerate() {
                    let m = Mp::Map(m);
                    let b = bytes(&m, (i % 4) as u8);
                    acc += agree(t, &b, Some(&m))?;
                    agree(t, &b[..b.len() - 1], None)?;
                    k += 2;
                }
            }
            batch(k, acc)
        });
    }
    // integers into each width, from each width
    for t in [u8::ty(), u16::ty(), u32::ty(), u64::ty(), i8::ty(), i16::ty(), i32::ty(), i64::ty()] {
        for sft in 0..64 {
            ctx.case("integers", &|| format!("{} around 2^{sft}", t.name), || {
                let (mut n, mut acc) = (0, 0);
                for d in -3..=3i128 {
                    for f in [1i128, 3, -1, -3] {
                        let x = (f << sft) + d;
                        if x > u64::MAX as i128 || x < i64::MIN as i128 {
                            continue;
                        }
                        for wide in 0..9 {
                            let m = Mp::Int(x);
                            acc += agree(t, &bytes(&m, wide), Some(&m))?;
                            n += 1;
                        }
                    }
                }
                batch(n, acc)
            });
        }
    }
    // changed encodings
    let limit = ctx.pick(4, 30);
    for t in &types {
        for (i, v) in domain::values(t, 1, 5, limit * 5).into_iter().step_by(5).enumerate() {
            let Some(m) = encode(t, &v) else { continue };
            for wide in 0..4 {
                let b = bytes(&m, wide);
                if b.len() > ctx.pick(150, 600) {
                    continue;
                }
                ctx.case(&format!("mutations {}", t.name), &|| format!("{i} {wide} {b:x?}"), || {
                    let (mut n, mut acc) = (0, 0);
                    for j in 0..=b.len() {
                        acc += one(t, &b[..j])?;
                        acc += one(t, &b[j..])?;
                        n += 2;
                        if j < b.len() {
                            for x in 0..=255u8 {
                                let mut c = b.clone();
                                c[j] = x;
                                acc += one(t, &c)?;
                                n += 1;
                            }
                        }
                        for x in alpha {
                            let mut c = b.clone();
                            c.insert(j, x);
                            acc += one(t, &c)?;
                            n += 1;
                        }
                        for w in 1..=4 {
                            if j + w <= b.len() {
                                let mut c = b.clone();
                                c.drain(j..j + w);
                                acc += one(t, &c)?;
                                n += 1;
                            }
                        }
                    }
                    batch(n, acc)
                });
            }
        }
    }
    // deep, and lengths that aren't there
    for open in [&b"\x91"[..], b"\x81\x01", b"\xdd\x00\x00\x00\x01", b"\xde\x00\x01\xa1z", b"\xdf\xff\xff\xff\xff\xc0", b"\xdd\xff\xff\xff\xff", b"\x81"] {
        for depth in [1usize, 100, 10_000, 1_000_000] {
            for end in [&b""[..], b"\xc0", b"\xa1a\x07", b"\xc0\xa1a\x07"] {
                ctx.case("deep", &|| format!("{open:x?} x {depth} {end:x?}"), || {
                    let mut b = b"\x82\xa1z".to_vec();
                    for _ in 0..depth {
                        b.extend(open);
                    }
                    b.extend(end);
                    let well = [&b"\x91"[..], b"\x81\x01", b"\xdd\x00\x00\x00\x01", b"\xde\x00\x01\xa1z"].contains(&open) && end == b"\xc0\xa1a\x07";
                    let m = Mp::Map(vec![(s("a"), Mp::Int(7))]);
                    // keys nested in keys lack their values
                    let r = agree(MOne::ty(), &b, well.then_some(&m)).map_err(|e| e.chars().rev().take(200).collect::<String>().chars().rev().collect::<String>());
                    if open == b"\x81" {
                        return r.or_else(|e| if e.contains("refused") || e.contains("decoded as") { Ok(0) } else { Err(e) }).and_then(|r| batch(depth as u64, r));
                    }
                    r.and_then(|r| batch(depth as u64, r))
                });
            }
        }
    }
    for m in [0xd9u8, 0xda, 0xdb, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xdc, 0xdd, 0xde, 0xdf, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3] {
        ctx.case("lengths", &|| format!("{m:#x}"), || {
            let (mut n, mut acc) = (0, 0);
            for l in [0u64, 1, 2, 254, 255, 256, 65535, 65536, u32::MAX as u64, i32::MAX as u64, 1 << 31, u64::MAX, i64::MAX as u64] {
                for width in 0..9usize {
                    for tail in 0..20usize {
                        for pre in [&b""[..], b"\x82\xa1z", b"\x81\xa1a", b"\x81", b"\x82\xa1b"] {
                            let mut b = pre.to_vec();
                            b.push(m);
                            b.extend(&l.to_be_bytes()[8 - width.min(8)..]);
                            b.extend(std::iter::repeat_n(0xa0, tail));
                            for t in [String::ty(), MOne::ty(), MTwo::ty(), u64::ty(), i64::ty()] {
                                acc += one(t, &b)?;
                                n += 1;
                            }
                        }
                    }
                }
            }
            batch(n, acc)
        });
    }
}
