use facet_pretty::{ColorGenerator, PrettyPrinter, RGB};
use mc::*;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::hash::{DefaultHasher, Hash, Hasher};

fn main() {
    mc::main(Check {
        id: "P03",
        level: "model_checking",
        rule: "every whole hash offset (0..360) x base hues (every degree for some saturations and lightnesses; multiples of 30, halves and limits for the others) x saturations x lightnesses (tenths, limits, beyond the limits): the colour, to within one step of rounding, of an independent conversion; hashes differing by multiples of 360 and up to u64::MAX; the codes written for every value of each component; all pairs of bytes in printed byte lists",
        assumptions: "base hues outside 0..=360 are outside the documented range",
        run,
    });
}
/// hue in degrees to 0..=255 per component, by the formula of CSS Color 4
fn reference(h: f64, s: f64, l: f64) -> [f64; 3] {
    let a = s * l.min(1.0 - l);
    [0.0, 8.0, 4.0].map(|n| {
        let k = (n + h / 30.0) % 12.0;
        (l - a * (k - 3.0).min(9.0 - k).min(1.0).max(-1.0)) * 255.0
    })
}
fn near(c: RGB, want: [f64; 3]) -> bool {
    [c.r, c.g, c.b].iter().zip(want).all(|(c, w)| (*c as f64 - w).abs() <= 1.01)
}
fn run(ctx: &mut Ctx) {
    let levels = [0.0f32, 0.1, 0.25, 0.3, 0.5, 0.6, 0.7, 0.9, 1.0, -1.0, 1.5, 7.0];
    let mut bases: Vec<f32> = (0..=12).map(|i| i as f32 * 30.0).collect();
    bases.extend([0.5, 59.5, 60.5, 179.9, 210.0, 239.5, 359.5]);
    for s in levels {
        for l in levels {
            let every = ctx.thorough() || [(0.7, 0.6), (1.0, 0.5), (0.3, 0.3)].contains(&(s, l));
            let bases = if every { (0..=360).map(|i| i as f32).chain(bases.iter().copied().filter(|b| b.fract() != 0.0)).collect() } else { bases.clone() };
            for b in bases {
                ctx.case("colours", &|| format!("base hue {b}, saturation {s}, lightness {l}"), || {
                    let g = ColorGenerator::new().with_base_hue(b).with_saturation(s).with_lightness(l);
                    let g2 = ColorGenerator::new().with_lightness(l).with_saturation(s).with_base_hue(b);
                    for o in 0..360u64 {
                        let want = reference((b as f64 + o as f64) % 360.0, (s as f64).clamp(0.0, 1.0), (l as f64).clamp(0.0, 1.0));
                        let c = g.generate_color(o);
                        if !near(c, want) {
                            return Err(format!("hash {o}: {c:?} instead of {want:?}"));
                        }
                        for h in [o, o + 360, o + 360 * 1000, (u64::MAX / 360 - 1) * 360 + o] {
                            if g.generate_color(h) != c || g2.generate_color(h) != c {
                                return Err(format!("hash {h}: {:?} instead of {c:?}", g.generate_color(h)));
                            }
                        }
                    }
                    Ok(CaseOut { class: 0, states: 360, transitions: 360 * 9 })
                });
            }
        }
    }
    ctx.case("colours", &|| "default".into(), || {
        let (a, b, c) = (ColorGenerator::new(), ColorGenerator::default(), ColorGenerator::new().with_base_hue(210.0).with_saturation(0.7).with_lightness(0.6));
        for o in 0..360 {
            if a.generate_color(o) != b.generate_color(o) || a.generate_color(o) != c.generate_color(o) {
                return Err(format!("hash {o}"));
            }
        }
        ok_class(1)
    });
    // the colour of a hashable value is that of its hash
    for k in 0..=255u64 {
        ctx.case("hashable values", &|| k.to_string(), || {
            fn of<T: Hash>(x: &T) -> Result<(), String> {
                let g = ColorGenerator::new();
                let mut h = DefaultHasher::new();
                x.hash(&mut h);
                if g.generate_color_for(x) != g.generate_color(h.finish()) || g.generate_color_for(x) != g.generate_color_for(x) {
                    return Err("another colour than that of its hash".into());
                }
                Ok(())
            }
            of(&(k as u8))?;
            of(&(k as i64 - 128))?;
            of(&k.to_string())?;
            of(&(k, "x"))?;
            of(&vec![k; k as usize % 5])?;
            ok_class(2)
        });
    }
    // codes
    for k in 0..=255u8 {
        ctx.case("codes", &|| k.to_string(), || {
            for c in [RGB::new(k, 7, 9), RGB::new(1, k, 9), RGB::new(255, 20, k), RGB::new(k, k, k)] {
                let (mut f, mut b) = (String::new(), String::new());
                c.write_fg(&mut f).map_err(|e| e.to_string())?;
                c.write_bg(&mut b).map_err(|e| e.to_string())?;
                let t = format!("{};{};{}m", c.r, c.g, c.b);
                if f != format!("\x1b[38;2;{t}") || b != format!("\x1b[48;2;{t}") {
                    return Err(format!("{c:?}: {f:?} {b:?}"));
                }
                struct Full(usize);
                impl Write for Full {
                    fn write_str(&mut self, s: &str) -> std::fmt::Result {
                        if s.len() > self.0 {
                            return Err(std::fmt::Error);
                        }
                        self.0 -= s.len();
                        Ok(())
                    }
                }
                for room in 0..=f.len() {
                    if c.write_fg(&mut Full(room)).is_ok() != (room == f.len()) || c.write_bg(&mut Full(room)).is_ok() != (room == b.len()) {
                        return Err(format!("{c:?}: room for {room}"));
                    }
                }
            }
            ok_class(3)
        });
    }
    // in printed byte lists, a byte always has the colour the generator gives it
    for a in 0..=255u8 {
        ctx.case("bytes", &|| a.to_string(), || {
            for (i, g) in [|| ColorGenerator::new(), || ColorGenerator::new().with_base_hue(90.0).with_saturation(1.0)].iter().enumerate() {
                let p = PrettyPrinter::new().with_colors(true).with_color_generator(g());
                let mut seen: BTreeMap<u8, String> = BTreeMap::new();
                for b in 0..=255u8 {
                    let text = p.format(&vec![a, b, a]);
                    let runs: Vec<(String, u8)> = text
                        .split("\x1b[38;2;")
                        .skip(1)
                        .filter_map(|t| {
                            let (code, rest) = t.split_once('m')?;
                            Some((code.to_string(), u8::from_str_radix(rest.get(..2)?, 16).ok()?))
                        })
                        .collect();
                    let bytes: Vec<u8> = runs.iter().map(|r| r.1).collect();
                    if bytes != [a, b, a] {
                        return Err(format!("{text:?}: bytes {bytes:?} in colour instead of {:?}", [a, b, a]));
                    }
                    for (code, x) in runs {
                        let c = g().generate_color_for(&x);
                        if *seen.entry(x).or_insert_with(|| code.clone()) != code {
                            return Err(format!("{x:02x} in different colours"));
                        }
                        if code != format!("{};{};{}", c.r, c.g, c.b) {
                            return Err(format!("generator {i}: {x:02x} in {code} instead of {c:?}"));
                        }
                    }
                }
            }
            Ok(CaseOut { class: 4, states: 512, transitions: 512 * 3 })
        });
    }
}
