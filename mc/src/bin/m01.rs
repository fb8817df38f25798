use mc::msgpack::*;
use mc::native::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "M01",
        level: "model_checking",
        rule: "all values over small domains of each type; all 8 and 16 bit integers, and of the wider ones all powers of two times small factors and their neighbours; all string lengths around every format boundary, every character; structs of 0, 1, 2, 15, 16, 17 and 64 fields with names of every format. The bytes are compared with those of an independent writer which always takes the shortest format, read by an independent reader, and decoded again",
        assumptions: "fields are encoded under their Rust names, in declaration order; types without an encoding (floats, options, lists, ...) aren't considered; integers that aren't negative use the unsigned formats",
        run,
    });
}
fn one<T: Native>(v: &Val) -> Result<u64, String> {
    let t = T::ty();
    let want = encode(t, v).expect("encodable");
    let x = T::make(v);
    let mut got = vec![];
    let mut err = None;
    let (_, rep) = tracked(|| match catching(|| facet_msgpack::to_vec(&x)) {
        Ok(b) => untracked(|| got = b.clone()),
        Err(m) => untracked(|| err = Some(m.clone())),
    });
    if let Some(m) = err {
        return Err(format!("{v:?}: panic: {m}"));
    }
    if !rep.clean() {
        return Err(format!("{v:?}: memory: {}", rep.describe()));
    }
    let shortest = bytes(&want, 0);
    if got != shortest {
        return Err(format!("{v:?}: encoded as {:x?} instead of {:x?}", &got[..got.len().min(40)], &shortest[..shortest.len().min(40)]));
    }
    let mut rest = &got[..];
    if read(&mut rest).as_ref() != Some(&want) || !rest.is_empty() {
        return Err(format!("{v:?}: {got:x?} doesn't denote it"));
    }
    let mut back = Err(String::new());
    let (_, rep) = tracked(|| {
        let r = catching(|| facet_msgpack::from_slice::<T>(&got));
        untracked(|| {
            back = match &r {
                Ok(Ok(y)) => Ok(y.unmake()),
                Ok(Err(e)) => Err(e.to_string()),
                Err(m) => Err(format!("panic: {m}")),
            }
        });
        drop(r);
    });
    match back {
        Ok(w) if w == *v => {}
        Ok(w) => return Err(format!("{v:?}: encoded as {got:x?}, which decodes to {w:?}")),
        Err(e) => return Err(format!("{v:?}: encoded as {got:x?}, which isn't decoded: {e}")),
    }
    if !rep.clean() {
        return Err(format!("{v:?}: memory, decoding: {}", rep.describe()));
    }
    Ok(got.len() as u64)
}
fn batch(n: u64) -> CaseResult {
    Ok(CaseOut { class: 3, states: n, transitions: n * 3 })
}
fn all<T: Native>(ctx: &mut Ctx) {
    let t = T::ty();
    let limit = ctx.pick(4000, 60000);
    for (i, vs) in domain::values(t, 1, 6, limit).chunks(64).enumerate() {
        ctx.case(&format!("values {}", t.name), &|| format!("part {i}"), || {
            for v in vs {
                one::<T>(v)?;
            }
            batch(vs.len() as u64)
        });
    }
    for (i, vs) in domain::large(t, ctx.pick(4097, 65537), 0, 0).chunks(32).enumerate() {
        ctx.case(&format!("values {}", t.name), &|| format!("large, part {i}"), || {
            for (_, v) in vs {
                one::<T>(v)?;
            }
            batch(vs.len() as u64)
        });
    }
}
fn ints<T: Native>(ctx: &mut Ctx, lo: i128, hi: i128) {
    let t = T::ty();
    if hi - lo < 70000 {
        for hi8 in (lo >> 8)..=(hi >> 8) {
            ctx.case("integers", &|| format!("{} {hi8}", t.name), || {
                for l in 0..256 {
                    let x = hi8 << 8 | l;
                    if lo <= x && x <= hi {
                        one::<T>(&Val::I(x))?;
                    }
                }
                batch(256)
            });
        }
        return;
    }
    for s in 0..64 {
        ctx.case("integers", &|| format!("{} around 2^{s}", t.name), || {
            let mut n = 0;
            for f in 1..32i128 {
                for d in -40..=40 {
                    for sign in [1, -1] {
                        let x = sign * (f << s) + d;
                        if lo <= x && x <= hi {
                            one::<T>(&Val::I(x))?;
                            n += 1;
                        }
                    }
                }
            }
            for d in 0..200 {
                one::<T>(&Val::I(lo + d))?;
                one::<T>(&Val::I(hi - d))?;
            }
            // within structs
            batch(n)
        });
    }
}
macro_rules! each {
    ($($t:ty),* $(,)?) => { fn values(ctx: &mut Ctx) { $( all::<$t>(ctx); )* } };
}
msgpack_types! {each}
fn run(ctx: &mut Ctx) {
    values(ctx);
    ints::<u8>(ctx, 0, 255);
    ints::<i8>(ctx, -128, 127);
    ints::<u16>(ctx, 0, u16::MAX as i128);
    ints::<i16>(ctx, i16::MIN as i128, i16::MAX as i128);
    ints::<u32>(ctx, 0, u32::MAX as i128);
    ints::<i32>(ctx, i32::MIN as i128, i32::MAX as i128);
    ints::<u64>(ctx, 0, u64::MAX as i128);
    ints::<i64>(ctx, i64::MIN as i128, i64::MAX as i128);
    // strings
    let mut lens: Vec<usize> = (0..ctx.pick(600, 3000)).collect();
    lens.extend(65500..65600);
    lens.extend([1 << 17, (1 << 17) + 65535, 1 << 20]);
    for (i, ls) in lens.chunks(50).enumerate() {
        ctx.case("string lengths", &|| format!("part {i}: {}..", ls[0]), || {
            for l in ls {
                one::<String>(&Val::S("x".repeat(*l)))?;
                if l % 2 == 0 {
                    one::<String>(&Val::S("é".repeat(*l / 2)))?;
                }
                one::<MTwo>(&Val::Struct(vec![Val::I(*l as i128), Val::S("y".repeat(*l))]))?;
            }
            batch(ls.len() as u64 * 3)
        });
    }
    let step = ctx.pick(16, 1);
    for hi in 0..0x1100u32 {
        ctx.case("characters", &|| format!("{hi:#x}00.."), || {
            for lo in (0..0x100).step_by(if hi < 0x100 { 1 } else { step }) {
                if let Some(c) = char::from_u32(hi << 8 | lo) {
                    one::<String>(&Val::S(c.to_string()))?;
                }
            }
            batch(256)
        });
    }
}
