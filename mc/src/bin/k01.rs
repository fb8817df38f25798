use mc::ktypes::types;
use mc::*;

fn main() {
    mc::main(Check {
        id: "K01",
        level: "model_checking",
        rule: "for each type of the universe all values over small domains (all combinations of boundary and distinct leaf values up to the limit given by the group sizes; beyond it all one- and two-position deviations; sequences to length 3, maps over all subsets of 4 keys); further values with one string, list or map grown to 4097 characters or 513 elements, or nested to 65 levels, through sizes around every power of two; each value is read recursively through every accessor (by index, name, iteration, key, typed read as every type of the universe, wrong names, indices, keys and kinds) and compared with the native value; all ordered pairs of types: comparisons of differently typed values",
        assumptions: "the reference description of each type (native.rs) is generated from the same definition as the type, by a macro of the harness",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    let limit = ctx.pick(300, 4000);
    let types = types();
    for t in &types {
        for v in domain::values(t, 1, 5, limit) {
            ctx.case(&format!("read {}", t.name), &|| format!("{v:?}"), || {
                let mut r = Ok(0);
                let (_, rep) = tracked(|| {
                    (t.with_peek)(&v, &mut |p| {
                        let got = peekcheck::check_all(p, t, &v, &types);
                        untracked(|| r = got.clone());
                    })
                });
                let n = r?;
                if !rep.clean() {
                    return Err(format!("memory: {}", rep.describe()));
                }
                Ok(CaseOut { class: fnv(t.name.as_bytes()), states: 1, transitions: n })
            });
        }
    }
    // grown ones
    let (long, many, depth) = ctx.pick((4097, 513, 65), (65537, 4097, 257));
    for t in &types {
        for (n, v) in domain::large(t, long, many, depth) {
            ctx.case(&format!("read large {}", t.name), &|| format!("{n}: {}", domain::show(&v)), || {
                let mut r = Ok(0);
                (t.with_peek)(&v, &mut |p| r = peekcheck::check(p, t, &v, &types[..2], "value"));
                peekcheck::forget();
                Ok(CaseOut { class: fnv(t.name.as_bytes()) ^ n as u64, states: 1, transitions: r? })
            });
        }
    }
    // values of different types are never compared
    for a in &types {
        for b in &types {
            if a == b {
                continue;
            }
            ctx.case("compare types", &|| format!("{} with {}", a.name, b.name), || {
                let (Some(va), Some(vb)) = (domain::values(a, 1, 4, 4).pop(), domain::values(b, 1, 4, 4).pop()) else { return ok() };
                let mut bad = None;
                (a.with_peek)(&va, &mut |pa| {
                    (b.with_peek)(&vb, &mut |pb| {
                        if pa.shape() == pb.shape() {
                            bad = Some("shapes are equal");
                        } else if pa.eq(&pb).is_some() || pa == pb {
                            bad = Some("compared as equal or unequal");
                        } else if pa.partial_cmp(&pb).is_some() || PartialOrd::partial_cmp(&pa, &pb).is_some() {
                            bad = Some("ordered");
                        } else if pa.id() == pb.id() {
                            bad = Some("same identity");
                        }
                    })
                });
                match bad {
                    Some(b) => Err(b.to_string()),
                    None => ok(),
                }
            });
        }
    }
}
