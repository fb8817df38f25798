use mc::fmt::*;
use mc::json;
use mc::native::*;
use mc::*;
use std::num::NonZero;

fn main() {
    mc::main(Check {
        id: "J02",
        level: "model_checking",
        rule: "all values over small domains of every type that can be written and read (all combinations of boundary leaf values up to the limit given by the group sizes, beyond it all one- and two-position deviations); each string grown to 65537 characters and each list to 1025 elements, and recursion to 257 levels, through sizes around every power of two and ten; every character and all strings to a length over an alphabet of special characters; all 8 and 16 bit integers, all powers of two times small factors and their neighbours of wider ones; all float exponents x selected mantissas. The text written is read back, through both the generic and the typed entry points",
        assumptions: "values compare by content, floats by bits",
        run,
    });
}
fn round(t: &'static Ty, v: &Val) -> Result<u64, String> {
    let mut text = String::new();
    (t.with_peek)(v, &mut |p| text = facet_json::peek_to_string(&p));
    match read_json(t, text.as_bytes(), true) {
        Err(m) => Err(format!("{m} reading {text}")),
        Ok(Read::Refused) => Err(format!("written as {text}, which is refused")),
        Ok(Read::Val(w)) if w == *v => Ok(text.len() as u64),
        Ok(Read::Val(w)) => Err(format!("written as {text}, which is read as {w:?}")),
    }
}
fn typed<T: Native>(ctx: &mut Ctx, limit: usize) {
    let t = T::ty();
    for v in domain::values(t, 1, 5, limit) {
        if !finite(&v) {
            continue;
        }
        ctx.case(&format!("typed {}", t.name), &|| format!("{v:?}"), || {
            let x = T::make(&v);
            let s = facet_json::to_string(&x);
            let mut w = vec![];
            facet_json::to_writer(&x, &mut w).map_err(|e| e.to_string())?;
            if s.as_bytes() != w {
                return Err(format!("to_string gives {s}, to_writer {:?}", String::from_utf8_lossy(&w)));
            }
            for y in [facet_json::from_str::<T>(&s), facet_json::from_slice::<T>(&w)] {
                match y {
                    Ok(y) if y.unmake() == v => {}
                    Ok(y) => return Err(format!("{s} is read as {:?}", y.unmake())),
                    Err(e) => return Err(format!("{s}: {}", e.message())),
                }
            }
            ok()
        });
    }
}
fn finite(v: &Val) -> bool {
    match v {
        Val::F(b) => f64::from_bits(*b).is_finite(),
        Val::Struct(v) | Val::List(v) | Val::Enum(_, v) => v.iter().all(finite),
        Val::Some(v) => finite(v),
        _ => true,
    }
}
fn batch(n: u64) -> CaseResult {
    Ok(CaseOut { class: 3, states: n, transitions: n })
}
fn num(r: Result<u64, String>, at: impl FnOnce() -> String) -> Result<u64, String> {
    r.map(|_| 1).map_err(|e| format!("{}: {e}", at()))
}
fn run(ctx: &mut Ctx) {
    let limit = ctx.pick(1000, 20000);
    for t in both_ways() {
        for v in domain::values(t, 1, 6, limit) {
            if finite(&v) {
                ctx.case(&format!("round trip {}", t.name), &|| format!("{v:?}"), || round(t, &v).map(|n| CaseOut { class: fnv(t.name.as_bytes()) ^ n, ..Default::default() }));
            }
        }
    }
    let (long, many, depth) = ctx.pick((65537, 1025, 257), (65537, 10001, 513));
    for t in both_ways() {
        for (n, v) in domain::large(t, long, many, depth) {
            ctx.case(&format!("large {}", t.name), &|| format!("{n}: {}", domain::show(&v)), || round(t, &v).map(|n| CaseOut { class: fnv(t.name.as_bytes()) ^ n, ..Default::default() }));
        }
    }
    let l = limit / 5;
    typed::<String>(ctx, l);
    typed::<bool>(ctx, l);
    typed::<u64>(ctx, l);
    typed::<i64>(ctx, l);
    typed::<f64>(ctx, l);
    typed::<f32>(ctx, l);
    typed::<NonZero<u16>>(ctx, l);
    typed::<Ren>(ctx, l);
    typed::<Def>(ctx, l);
    typed::<CDef>(ctx, l);
    typed::<Nest>(ctx, l);
    typed::<ListS>(ctx, l);
    typed::<Chain>(ctx, l);
    typed::<Vec<Option<Vec<u8>>>>(ctx, l);
    typed::<Option<Two>>(ctx, l);
    for base in (0..0x110000u32).step_by(0x400) {
        ctx.case("characters", &|| format!("U+{base:04X}.."), || {
            let mut n = 0;
            for c in (base..base + 0x400).filter_map(char::from_u32) {
                for s in [format!("{c}"), format!("a{c}b"), format!("\n{c}{c}")] {
                    n += num(round(String::ty(), &Val::S(s)), || format!("{c:?}"))?;
                }
            }
            batch(n)
        });
    }
    let alpha = ['"', '\\', '/', '\n', '\0', '\u{1f}', '\u{7f}', 'u', '{', '\u{80}', '\u{2028}', 'é', '\u{10ffff}', '0'];
    let len = ctx.pick(4, 6);
    for a in alpha {
        for b in alpha {
            ctx.case("strings", &|| format!("{a:?} {b:?} .."), || {
                let mut n = 0;
                for k in 0..=len - 2 {
                    for i in 0..alpha.len().pow(k as u32) {
                        let mut s: String = [a, b].iter().collect();
                        let mut i = i;
                        for _ in 0..k {
                            s.push(alpha[i % alpha.len()]);
                            i /= alpha.len();
                        }
                        n += num(round(String::ty(), &Val::S(s.clone())), || format!("{s:?}"))?;
                    }
                }
                batch(n)
            });
        }
    }
    let ints = [
        u8::ty(), i8::ty(), u16::ty(), i16::ty(), u32::ty(), i32::ty(), u64::ty(), i64::ty(), usize::ty(), isize::ty(),
        <NonZero<u8>>::ty(), <NonZero<u16>>::ty(), <NonZero<u32>>::ty(), <NonZero<u64>>::ty(), <NonZero<usize>>::ty(),
        <NonZero<i8>>::ty(), <NonZero<i16>>::ty(), <NonZero<i32>>::ty(), <NonZero<i64>>::ty(), <NonZero<isize>>::ty(),
    ];
    for t in ints {
        ctx.case("integers", &|| t.name.clone(), || {
            let (lo, hi, nz) = json::int_range(&t.name).unwrap();
            let mut n = 0;
            if hi < 1 << 16 {
                for i in (lo..=hi).filter(|i| *i != 0 || !nz) {
                    n += num(round(t, &Val::I(i)), || i.to_string())?;
                }
            } else {
                for b in 0..64 {
                    for d in -5i128..=5 {
                        for m in [1i128, -1, 3, 10, 1000] {
                            let i = m * (1i128 << b) + d;
                            if lo <= i && i <= hi && !(nz && i == 0) {
                                n += num(round(t, &Val::I(i)), || i.to_string())?;
                            }
                        }
                    }
                }
            }
            batch(n)
        });
    }
    for (t, e, m, w) in [(f32::ty(), 8u32, 23u32, 32), (f64::ty(), 11, 52, 64)] {
        for exp in 0..(1u64 << e) - 1 {
            ctx.case("floats", &|| format!("{} exponent {exp}", t.name), || {
                let mut n = 0;
                let mut ms = vec![0, 1, 2, (1u64 << m) - 2, (1u64 << (m - 1)) - 1, 0x2aaaaaaaaaaaa, 0xf0f0f0f0f0f0f];
                for b in 0..m {
                    ms.extend([1u64 << b, (1u64 << m) - (1u64 << b), (1u64 << m).wrapping_sub(1) ^ (1u64 << b)]);
                }
                for mant in ms {
                    for sign in [0, 1] {
                        let bits = sign << (w - 1) | exp << m | mant & ((1u64 << m) - 1);
                        let x = if w == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) };
                        n += num(round(t, &Val::F(x.to_bits())), || format!("{x:e}"))?;
                    }
                }
                batch(n)
            });
        }
    }
}
