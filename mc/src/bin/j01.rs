use mc::json::{self, Doc};
use mc::native::*;
use mc::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Write};

fn main() {
    mc::main(Check {
        id: "J01",
        level: "model_checking",
        rule: "all values over small domains of every type of the universe (all combinations of boundary leaf values up to the limit given by the group sizes, beyond it all one- and two-position deviations); each string grown to 65537 characters and each list and map to 1025 entries, and recursion to 257 levels, through sizes around every power of two and ten; every character in a string, a member name and a map key; all strings to a length over an alphabet of special characters; all 8 and 16 bit integers; all float exponents x selected mantissas. The text is read back by an independent strict parser and compared with the document the value denotes; values without one must be refused. Every prefix of the output as the point where the writer fails, and writers taking one byte at a time",
        assumptions: "fixed-size arrays, tuples behind pointers and smart pointers may be refused or written; to_string, which has no way to return an error, may panic instead of refusing",
        run,
    });
}

fn write(t: &'static Ty, v: &Val, w: &mut impl Write) -> io::Result<()> {
    let mut r = Ok(());
    (t.with_peek)(v, &mut |p| r = facet_json::peek_to_writer(&p, w));
    r
}
fn has_unsupported(t: &'static Ty) -> bool {
    t.closure().iter().any(|t| matches!(t.kind, Kind::Array(..) | Kind::Pointer(_)))
}
fn strip(t: &'static Ty, v: &Val) -> Option<Doc> {
    json::document(t, v, fmt::attrs)
}
fn check(t: &'static Ty, v: &Val) -> Result<usize, String> {
    let mut out = Vec::new();
    let mut res = Ok(());
    let (r, rep) = tracked(|| {
        let mut o = Vec::new();
        let r = catching(|| write(t, v, &mut o));
        untracked(|| {
            out = o.clone();
            res = match r {
                Ok(Ok(())) => Ok(()),
                Ok(Err(ref e)) => Err(e.to_string()),
                Err(ref m) => Err(format!("panic: {m}")),
            }
        });
    });
    let _ = r;
    if !rep.clean() {
        return Err(format!("memory: {}", rep.describe()));
    }
    let want = strip(t, v);
    let text = String::from_utf8_lossy(&out);
    match (res, want) {
        (Err(e), _) if e.starts_with("panic") => Err(e),
        (Err(e), Some(w)) => Err(format!("refused ({e}) instead of {w:?}")),
        (Err(_), None) => Ok(0),
        (Ok(()), None) if has_unsupported(t) => json::parse(&out).map(|_| out.len()).ok_or(format!("not JSON: {text}")),
        (Ok(()), None) => Err(format!("written as {text} although it has no JSON notation")),
        (Ok(()), Some(w)) => {
            let Some(g) = json::parse(&out) else { return Err(format!("not JSON: {text}")) };
            if !json::same(t, &g, &w) {
                return Err(format!("written as {text} instead of {w:?}"));
            }
            // of the same value, made anew: maps may have another order
            let mut other = String::new();
            (t.with_peek)(v, &mut |p| other = facet_json::peek_to_string(&p));
            if !json::parse(other.as_bytes()).is_some_and(|g| json::same(t, &g, &w)) {
                return Err(format!("peek_to_string writes {other}"));
            }
            Ok(out.len())
        }
    }
}
/// takes `chunk` bytes at a time and fails after `left`
struct Faulty {
    left: usize,
    chunk: usize,
    got: Vec<u8>,
    zero: bool,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.chunk).min(self.left);
        if n == 0 && !b.is_empty() {
            return if self.zero { Ok(0) } else { Err(io::Error::other("full")) };
        }
        self.got.extend(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn faults(t: &'static Ty, v: &Val) -> CaseResult {
    let mut all = Vec::new();
    if write(t, v, &mut all).is_err() {
        return ok();
    }
    for left in 0..=all.len() {
        for (chunk, zero) in [(usize::MAX, false), (1, true), (3, false)] {
            let mut w = Faulty { left, chunk, got: vec![], zero };
            let r = write(t, v, &mut w);
            if r.is_ok() != (left == all.len()) || w.got != all[..left] {
                return Err(format!("writer failing after {left} bytes: {:?}, wrote {:?}", r.map_err(|e| e.to_string()), String::from_utf8_lossy(&w.got)));
            }
        }
    }
    Ok(CaseOut { class: 2, states: all.len() as u64 * 3, transitions: all.len() as u64 * 3 })
}
/// the typed entry points are the untyped ones
fn typed<T: Native>(ctx: &mut Ctx) {
    let t = T::ty();
    for v in domain::values(t, 1, 5, ctx.pick(20, 200)) {
        ctx.case(&format!("typed {}", t.name), &|| format!("{v:?}"), || {
            let x = T::make(&v);
            let p = facet_reflect::Peek::new(&x);
            let mut all = vec![];
            let refused = facet_json::peek_to_writer(&p, &mut all).is_err();
            let mut w = vec![];
            if facet_json::to_writer(&x, &mut w).is_err() != refused || w != all {
                return Err(format!("to_writer: {:?} instead of {:?}", String::from_utf8_lossy(&w), String::from_utf8_lossy(&all)));
            }
            if refused {
                return ok();
            }
            if facet_json::to_string(&x).as_bytes() != all || facet_json::peek_to_string(&p).as_bytes() != all {
                return Err(format!("to_string: {:?} instead of {:?}", facet_json::to_string(&x), String::from_utf8_lossy(&all)));
            }
            for left in 0..=all.len() {
                for (chunk, zero) in [(usize::MAX, false), (1, true)] {
                    let mut w = Faulty { left, chunk, got: vec![], zero };
                    let r = facet_json::to_writer(&x, &mut w);
                    if r.is_ok() != (left == all.len()) || w.got != all[..left] {
                        return Err(format!("to_writer, failing after {left} bytes: {:?}, wrote {:?}", r.map_err(|e| e.to_string()), String::from_utf8_lossy(&w.got)));
                    }
                }
            }
            Ok(CaseOut { class: 4, states: all.len() as u64 * 2, transitions: all.len() as u64 * 2 })
        });
    }
}
fn num(r: Result<usize, String>, at: impl FnOnce() -> String) -> Result<u64, String> {
    r.map(|_| 1).map_err(|e| format!("{}: {e}", at()))
}
fn batch(n: u64) -> CaseResult {
    Ok(CaseOut { class: 3, states: n, transitions: n })
}

fn run(ctx: &mut Ctx) {
    let limit = ctx.pick(300, 5000);
    for t in fmt::written() {
        for v in domain::values(t, 1, 5, limit) {
            ctx.case(&format!("write {}", t.name), &|| format!("{v:?}"), || check(t, &v).map(|n| CaseOut { class: fnv(t.name.as_bytes()) ^ n as u64, ..Default::default() }));
        }
        for v in domain::values(t, 1, 5, limit / 10) {
            // hash maps made twice may be ordered differently
            if t.closure().iter().any(|t| t.name.starts_with("HashMap")) {
                continue;
            }
            ctx.case(&format!("fault {}", t.name), &|| format!("{v:?}"), || faults(t, &v));
        }
    }
    let (long, many, depth) = ctx.pick((65537, 1025, 257), (65537, 10001, 513));
    for t in fmt::written() {
        for (n, v) in domain::large(t, long, many, depth) {
            ctx.case(&format!("large {}", t.name), &|| format!("{n}: {}", domain::show(&v)), || check(t, &v).map(|n| CaseOut { class: fnv(t.name.as_bytes()) ^ n as u64, ..Default::default() }));
        }
    }
    typed::<String>(ctx);
    typed::<f64>(ctx);
    typed::<universe::SC>(ctx);
    typed::<universe::SE>(ctx);
    typed::<fmt::JE>(ctx);
    typed::<Vec<fmt::JE>>(ctx);
    typed::<HashMap<u8, Option<fmt::Ren>>>(ctx);
    typed::<Vec<u128>>(ctx);
    typed::<BTreeMap<(), u8>>(ctx);
    typed::<(char, u8)>(ctx);
    // every character, in every kind of string
    for base in (0..0x110000u32).step_by(0x400) {
        ctx.case("characters", &|| format!("U+{base:04X}.."), || {
            let mut n = 0;
            for c in (base..base + 0x400).filter_map(char::from_u32) {
                let s = Val::S(format!("a{c}b"));
                n += num(check(String::ty(), &s), || format!("{c:?}"))?;
                n += num(check(<BTreeMap<char, u8>>::ty(), &Val::Map(BTreeMap::from([(Val::C(c), Val::I(1))]))), || format!("{c:?} as a key"))?;
                n += num(check(<BTreeMap<String, u8>>::ty(), &Val::Map(BTreeMap::from([(s.clone(), Val::I(1))]))), || format!("{c:?} in a key"))?;
                n += num(check(<BTreeMap<&'static str, u8>>::ty(), &Val::Map(BTreeMap::from([(Val::S(c.to_string()), Val::I(1))]))), || format!("{c:?} in a &str key"))?;
                if base < 0x800 {
                    n += num(check(<&'static str>::ty(), &s), || format!("{c:?} in &str"))?;
                    n += num(check(<std::borrow::Cow<'static, str>>::ty(), &s), || format!("{c:?} in Cow"))?;
                    n += num(check(<HashMap<std::borrow::Cow<'static, str>, u8>>::ty(), &Val::Map(BTreeMap::from([(s, Val::I(1))]))), || format!("{c:?} in a Cow key"))?;
                }
            }
            batch(n)
        });
    }
    let alpha = ['"', '\\', '/', '\n', '\0', '\u{1f}', '\u{7f}', 'u', '{', '\u{80}', '\u{2028}', 'é', '\u{10ffff}', '<'];
    let len = ctx.pick(4, 5);
    for a in alpha {
        for b in alpha {
            ctx.case("strings", &|| format!("{a:?} {b:?} .."), || {
                let mut n = 0;
                for k in 0..=len - 2 {
                    for i in 0..alpha.len().pow(k as u32) {
                        let mut s: String = [a, b].iter().collect();
                        let mut i = i;
                        for _ in 0..k {
                            s.push(alpha[i % alpha.len()]);
                            i /= alpha.len();
                        }
                        n += num(check(String::ty(), &Val::S(s.clone())), || format!("{s:?}"))?;
                    }
                }
                batch(n)
            });
        }
    }
    // numbers
    for t in [u8::ty(), i8::ty(), u16::ty(), i16::ty()] {
        ctx.case("integers", &|| t.name.clone(), || {
            let (lo, hi, _) = json::int_range(&t.name).unwrap();
            for i in lo..=hi {
                num(check(t, &Val::I(i)), || i.to_string())?;
                if t.name.starts_with('u') {
                    num(check(<Vec<u8>>::ty(), &Val::List(vec![Val::I(i & 255)])), || i.to_string())?;
                }
            }
            batch((hi - lo) as u64 + 1)
        });
    }
    for t in [u32::ty(), i32::ty(), u64::ty(), i64::ty(), usize::ty(), isize::ty()] {
        ctx.case("integers", &|| t.name.clone(), || {
            let (lo, hi, _) = json::int_range(&t.name).unwrap();
            let mut n = 0;
            for b in 0..64 {
                for d in -3i128..=3 {
                    for m in [1i128, -1, 3, 10] {
                        let i = m * (1i128 << b) + d;
                        if lo <= i && i <= hi {
                            n += num(check(t, &Val::I(i)), || i.to_string())?;
                        }
                    }
                }
            }
            batch(n)
        });
    }
    for (t, e, m, w) in [(f32::ty(), 8u32, 23u32, 32), (f64::ty(), 11, 52, 64)] {
        for exp in 0..1u64 << e {
            ctx.case("floats", &|| format!("{} exponent {exp}", t.name), || {
                let mut n = 0;
                let mut ms = vec![0, 1, 2, (1u64 << m) - 1, (1u64 << m) - 2, 1u64 << (m - 1), (1u64 << (m - 1)) - 1, 0x2aaaaaaaaaaaa & ((1u64 << m) - 1), 0xf0f0f0f0f0f0f & ((1u64 << m) - 1)];
                for b in 0..m {
                    ms.extend([1u64 << b, (1u64 << m) - (1u64 << b), (1u64 << m).wrapping_sub(1) ^ (1u64 << b)]);
                }
                for mant in ms {
                    for sign in [0, 1] {
                        let bits = sign << (w - 1) | exp << m | mant & ((1u64 << m) - 1);
                        let x = if w == 32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) };
                        n += num(check(t, &Val::F(x.to_bits())), || format!("{x:e}"))?;
                    }
                }
                batch(n)
            });
        }
    }
}
