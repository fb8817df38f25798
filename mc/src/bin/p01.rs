use facet_pretty::FacetPretty;
use mc::native::*;
use mc::pretty::*;
use mc::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

fn main() {
    mc::main(Check {
        id: "P01",
        level: "model_checking",
        rule: "structs, tuple structs and enum variants with sensitive fields of every kind in every position, bare and wrapped twice in every combination of lists, options, tuples, arrays, maps and pointers: all values over small domains x all printer settings (indentation, depth limit, colours) x all contents of the secrets. The text must be the same whatever the secrets are, and hold one marker for each sensitive field that's reached",
        assumptions: "an array is printed as one redacted value if its elements may hold secrets; the contents of maps and smart pointers aren't printed",
        run,
    });
}
fn wrap1<B: Native>(v: &mut Vec<&'static Ty>) {
    v.extend([B::ty(), <Vec<B>>::ty(), <Option<B>>::ty(), <(B, u8)>::ty(), <[B; 2]>::ty(), <HashMap<String, B>>::ty(), <BTreeMap<u8, B>>::ty(), <Arc<B>>::ty()]);
}
fn wrap2<B: Native>(v: &mut Vec<&'static Ty>) {
    wrap1::<B>(v);
    wrap1::<Vec<B>>(v);
    wrap1::<Option<B>>(v);
    wrap1::<(u8, B)>(v);
    wrap1::<[B; 2]>(v);
    wrap1::<HashMap<u8, B>>(v);
    wrap1::<Arc<B>>(v);
}
fn secret(t: &'static Ty, j: usize) -> Val {
    let d = domain::values(t, 1, 4, 24);
    // not only neighbours
    d[j * 5 % d.len()].clone()
}
fn check(t: &'static Ty, v: &Val, sets: &[Set], n: &mut u64, text: &dyn Fn(&Val, &Set) -> String) -> Result<(), String> {
    let others: Vec<Val> = (0..5).map(|j| with_secrets(t, v, &|t| secret(t, j))).collect();
    for set in sets {
        let want = text(v, set);
        for o in &others {
            *n += 1;
            let got = text(o, set);
            if got != want {
                return Err(format!("{set:?}: {want:?} becomes {got:?} when only secrets change, for {o:?}"));
            }
        }
        let marks = plain(&want)?.matches("[REDACTED]").count();
        if marks != markers(t, v, set, 0) {
            return Err(format!("{set:?}: {marks} redacted in {want:?} instead of {}", markers(t, v, set, 0)));
        }
    }
    Ok(())
}
fn typed<T: Native>(ctx: &mut Ctx) {
    let t = T::ty();
    let sets: Vec<Set> = settings();
    let limit = ctx.pick(20, 200);
    for v in domain::values(t, 1, 5, limit) {
        ctx.case(&format!("typed {}", t.name), &|| format!("{v:?}"), || {
            let mut n = 0;
            check(t, &v, &sets, &mut n, &|v, s| s.printer().format(&T::make(v)))?;
            check(t, &v, &sets, &mut n, &|v, s| T::make(v).pretty_with(s.printer()).to_string())?;
            check(t, &v, &sets, &mut n, &|v, s| format!("{:>#90.3}", T::make(v).pretty_with(s.printer())))?;
            let default = Set { indent: 2, depth: None, colors: Some(0) };
            check(t, &v, &[default], &mut n, &|v, _| T::make(v).pretty().to_string())?;
            Ok(CaseOut { class: 2, states: n, transitions: n })
        });
    }
}
fn run(ctx: &mut Ctx) {
    let mut ts = vec![];
    wrap2::<P1>(&mut ts);
    wrap2::<PE>(&mut ts);
    wrap2::<PTup>(&mut ts);
    wrap1::<P2>(&mut ts);
    wrap1::<P3>(&mut ts);
    wrap1::<P4>(&mut ts);
    wrap1::<PDoc>(&mut ts);
    wrap1::<PTree>(&mut ts);
    wrap1::<PAttr>(&mut ts);
    wrap1::<PAttrE>(&mut ts);
    wrap1::<Vec<PAttrE>>(&mut ts);
    wrap1::<PC>(&mut ts);
    wrap1::<Vec<PTree>>(&mut ts);
    wrap1::<(PC, PDoc)>(&mut ts);
    let mut seen = vec![];
    ts.retain(|t| {
        let new = !seen.contains(&t.id);
        seen.push(t.id);
        new
    });
    let sets = settings();
    let limit = ctx.pick(300, 3000);
    for t in ts {
        for (part, vs) in domain::values(t, 1, 6, limit).chunks(16).enumerate() {
            ctx.case(&format!("secrets in {}", t.name), &|| format!("part {part}"), || {
                let mut n = 0;
                for v in vs {
                    check(t, v, &sets, &mut n, &|v, s| format(t, v, &s.printer())).map_err(|e| format!("{v:?}: {e}"))?;
                }
                Ok(CaseOut { class: 1, states: n, transitions: n })
            });
        }
    }
    for (t, at) in [(PComb1::ty(), "sensitive, rename = \"r1\""), (PComb2::ty(), "rename = \"r1\", sensitive"), (PComb3::ty(), "default, sensitive"), (PComb4::ty(), "sensitive, default")] {
        ctx.case("combined", &|| format!("struct with #[facet({at})] secret: String"), || {
            let mut n = 0;
            check(t, &domain::values(t, 1, 5, 1)[0], &sets, &mut n, &|v, s| format(t, v, &s.printer()))?;
            Ok(CaseOut { class: 3, states: n, transitions: n })
        });
    }
    typed::<P1>(ctx);
    typed::<PE>(ctx);
    typed::<PTup>(ctx);
    typed::<P3>(ctx);
    typed::<Vec<PE>>(ctx);
    typed::<Option<P2>>(ctx);
    typed::<[PE; 2]>(ctx);
    typed::<(P4, PC)>(ctx);
}
