use facet_pretty::FacetPretty;
use mc::fmt::{Flt, Ints, ListS};
use mc::native::*;
use mc::pretty::*;
use mc::universe::*;
use mc::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

fn main() {
    mc::main(Check {
        id: "P02",
        level: "model_checking",
        rule: "all values over small domains of nested structs, tuples, enums of every variant kind, lists, options, bytes, maps and scalars, with and without docs and secrets x all printer settings (indentation, depth limit, colours). Without colours, the text is that of a reference renderer; with colours, it's the same once the codes are removed, each of which is reset; two runs agree. Texts grown to 1025 characters, lists to 130 elements, every byte length; every scalar of 8 and 16 bits; lists and trees up to a thousand levels deep; every place where the writer fails",
        assumptions: "maps are printed without their contents; arrays and pointers are outside; zero-sized values share their address",
        run,
    });
}
fn check(t: &'static Ty, v: &Val, sets: &[Set], n: &mut u64, text: &dyn Fn(&Val, &Set) -> String) -> Result<(), String> {
    for set in sets {
        *n += 1;
        let want = render(t, v, set).ok_or(format!("harness: no text for {v:?}"))?;
        let got = text(v, set);
        let bare = if set.colors.is_some() { plain(&got).map_err(|e| format!("{set:?}: {e} in {got:?}"))? } else { got.clone() };
        if bare != want {
            return Err(format!("{set:?}: printed as {bare:?} instead of {want:?}"));
        }
        let again = text(v, set);
        if again != got {
            return Err(format!("{set:?}: printed as {got:?}, then as {again:?}"));
        }
        if set.colors.is_some() && !got.contains('\x1b') {
            return Err(format!("{set:?}: without colours: {got:?}"));
        }
    }
    Ok(())
}
struct Short {
    left: usize,
    /// whether it works again after a failure
    once: bool,
    failed: bool,
    got: String,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left && !(self.once && self.failed) {
            self.left = 0;
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left = self.left.saturating_sub(s.len());
        self.got.push_str(s);
        Ok(())
    }
}
fn typed<T: Native>(ctx: &mut Ctx) {
    let t = T::ty();
    let sets: Vec<Set> = settings();
    let limit = ctx.pick(12, 200);
    for v in domain::values(t, 1, 5, limit) {
        ctx.case(&format!("typed {}", t.name), &|| format!("{v:?}"), || {
            let mut n = 0;
            check(t, &v, &sets, &mut n, &|v, s| s.printer().format(&T::make(v)))?;
            check(t, &v, &sets, &mut n, &|v, s| T::make(v).pretty_with(s.printer()).to_string())?;
            check(t, &v, &[Set { indent: 2, depth: None, colors: Some(0) }], &mut n, &|v, _| T::make(v).pretty().to_string())?;
            // one printer for all
            let p = sets[1].printer();
            check(t, &v, &sets[1..2], &mut n, &|v, _| p.format(&T::make(v)))?;
            check(t, &v, &sets[1..2], &mut n, &|v, _| format(t, v, &p))?;
            for set in &sets[..4] {
                let all = format(t, &v, &set.printer());
                let x = T::make(&v);
                for left in 0..=all.len() {
                    for once in [false, true] {
                        let mut w = Short { left, once, failed: false, got: String::new() };
                        let r = write!(w, "{}", x.pretty_with(set.printer()));
                        n += 1;
                        if r.is_ok() != (left == all.len()) || (!once && !all.starts_with(&w.got)) {
                            return Err(format!("writer failing {} after {left} bytes: {r:?}, wrote {:?}", if once { "once" } else { "" }, w.got));
                        }
                    }
                }
            }
            Ok(CaseOut { class: 2, states: n, transitions: n })
        });
    }
}
fn run(ctx: &mut Ctx) {
    let ts = vec![
        u8::ty(), i64::ty(), f32::ty(), f64::ty(), bool::ty(), char::ty(), String::ty(), <()>::ty(), u128::ty(), i128::ty(),
        S2::ty(), SD::ty(), N2::ty(), Deep::ty(), E::ty(), EC::ty(), EI::ty(), EU::ty(), SE::ty(), SC::ty(), SO::ty(), T2::ty(), UnitLike::ty(), Z::ty(), Tree::ty(), Ints::ty(), Flt::ty(), ListS::ty(),
        P1::ty(), P2::ty(), P3::ty(), P4::ty(), PDoc::ty(), PTree::ty(), PE::ty(), PC::ty(), PTup::ty(), PAttr::ty(), PAttrE::ty(), DS::ty(), DE::ty(), DIn::ty(), Empties::ty(), UnitIn::ty(), Zs::ty(), Zs1::ty(), Zs2::ty(), Zs3::ty(),
        <Vec<u8>>::ty(), <Vec<i8>>::ty(), <Vec<Vec<u8>>>::ty(), <Vec<Option<u8>>>::ty(), <Vec<DS>>::ty(), <Vec<DE>>::ty(), <Vec<Empties>>::ty(), <Vec<UnitIn>>::ty(), <Vec<()>>::ty(), <Vec<Vec<()>>>::ty(), <Vec<Zs>>::ty(), <Vec<String>>::ty(), <Vec<Vec<Vec<u16>>>>::ty(), <Vec<E>>::ty(),
        <Option<u8>>::ty(), <Option<Option<Option<()>>>>::ty(), <Option<DS>>::ty(), <Option<DE>>::ty(), <Option<Vec<u8>>>::ty(), <Option<Vec<Option<UnitIn>>>>::ty(), <Option<Zs>>::ty(),
        <(u8, String)>::ty(), <(u8, (bool, Vec<u8>), UnitIn)>::ty(), <((), ((), ((), ((), u8))))>::ty(), <(DE, DE)>::ty(),
        <HashMap<String, u8>>::ty(), <BTreeMap<u8, DS>>::ty(), <Vec<HashMap<u8, u8>>>::ty(), <(HashMap<u8, Vec<u8>>, u8)>::ty(),
    ];
    let sets = settings();
    let limit = ctx.pick(600, 6000);
    for t in &ts {
        for (part, vs) in domain::values(t, 1, 6, limit).chunks(16).enumerate() {
            ctx.case(&format!("values {}", t.name), &|| format!("part {part}"), || {
                let mut n = 0;
                for v in vs {
                    check(t, v, &sets, &mut n, &|v, s| format(t, v, &s.printer())).map_err(|e| format!("{v:?}: {e}"))?;
                }
                Ok(CaseOut { class: 1, states: n, transitions: n })
            });
        }
    }
    // grown
    for t in ts.iter().chain(&[mc::fmt::Tup12::ty(), mc::fmt::WideE::ty(), <Vec<mc::fmt::WideE>>::ty()]) {
        let (long, many, depth) = ctx.pick((1025, 130, 33), (65537, 1025, 130));
        for (n, v) in domain::large(t, long, many, depth) {
            ctx.case(&format!("large {}", t.name), &|| format!("{n}: {}", domain::show(&v)), || {
                let mut k = 0;
                check(t, &v, if n > 40 { &sets[..4] } else { &sets }, &mut k, &|v, s| format(t, v, &s.printer()))?;
                Ok(CaseOut { class: 7, states: k, transitions: k })
            });
        }
    }
    typed::<S2>(ctx);
    typed::<DE>(ctx);
    typed::<DS>(ctx);
    typed::<PE>(ctx);
    typed::<SE>(ctx);
    typed::<Vec<Option<u8>>>(ctx);
    typed::<(u8, Vec<u8>)>(ctx);
    typed::<HashMap<u8, u8>>(ctx);
    // bytes
    for len in 0..70usize {
        ctx.case("bytes", &|| format!("{len}"), || {
            let mut n = 0;
            for start in [0usize, 7, 200] {
                let v = Val::List((0..len).map(|i| Val::I(((start + i * 3) % 256) as i128)).collect());
                check(<Vec<u8>>::ty(), &v, &sets, &mut n, &|v, s| format(<Vec<u8>>::ty(), v, &s.printer()))?;
                let t = <Vec<(u8, Vec<u8>)>>::ty();
                let w = Val::List(vec![Val::Struct(vec![Val::I(1), v.clone()]), Val::Struct(vec![Val::I(2), v])]);
                check(t, &w, &sets, &mut n, &|v, s| format(t, v, &s.printer()))?;
            }
            Ok(CaseOut { class: 3, states: n, transitions: n })
        });
    }
    // scalars
    for t in [u8::ty(), i8::ty(), u16::ty(), i16::ty()] {
        ctx.case("integers", &|| t.name.clone(), || {
            let (lo, hi, _) = json::int_range(&t.name).unwrap();
            let mut n = 0;
            for i in lo..=hi {
                check(t, &Val::I(i), &sets[..2], &mut n, &|v, s| format(t, v, &s.printer()))?;
            }
            Ok(CaseOut { class: 4, states: n, transitions: n })
        });
    }
    for base in (0..0x110000u32).step_by(0x4000) {
        ctx.case("characters", &|| format!("U+{base:04X}.."), || {
            let mut n = 0;
            for c in (base..base + 0x4000).step_by(if base < 0x4000 { 1 } else { 61 }).filter_map(char::from_u32).filter(|c| *c != '\x1b') {
                check(char::ty(), &Val::C(c), &sets[..2], &mut n, &|v, s| format(char::ty(), v, &s.printer()))?;
                let s = Val::Struct(vec![Val::S(format!("a{c}")), Val::I(1)]);
                check(S2::ty(), &s, &sets[..2], &mut n, &|v, s| format(S2::ty(), v, &s.printer()))?;
            }
            Ok(CaseOut { class: 5, states: n, transitions: n })
        });
    }
    // depth
    let mut deep = vec![1, 2, 3, 10, 100, 400];
    deep.extend(ctx.pick(None, Some(1000)));
    for depth in deep {
        ctx.case("deep", &|| format!("{depth}"), || {
            let mut n = 0;
            let mut v = Val::Struct(vec![Val::S("leaf".into()), Val::List(vec![])]);
            for i in 0..depth {
                let twin = Val::Struct(vec![Val::S("twin".into()), Val::List(vec![])]);
                v = Val::Struct(vec![Val::S(format!("{i}")), Val::List(if i % 3 == 0 { vec![twin, v] } else { vec![v] })]);
            }
            let t = Tree::ty();
            let sets: Vec<Set> = [None, Some(0), Some(1), Some(depth), Some(2 * depth), Some(2 * depth + 1)].iter().flat_map(|d| [None, Some(0)].map(|colors| Set { indent: 1, depth: *d, colors })).collect();
            check(t, &v, &sets, &mut n, &|v, s| format(t, v, &s.printer()))?;
            Ok(CaseOut { class: 6, states: n, transitions: n })
        });
    }
}
