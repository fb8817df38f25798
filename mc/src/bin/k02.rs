//! Values built by the builder, inspected, shown, compared and given away.
use facet_core::{PtrConst, Shape};
use facet_reflect::{HeapValue, Wip};
use mc::ktypes::types;
use mc::native::*;
use mc::*;
use std::cmp::Ordering;
use std::fmt;

/// A native value, shown through its own shape
struct Raw(&'static Shape, PtrConst<'static>, bool);
impl fmt::Display for Raw {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let vt = self.0.vtable;
        match if self.2 { vt.debug } else { vt.display } {
            Some(show) => unsafe { show(self.1, f) },
            None => write!(f, "{}", self.0),
        }
    }
}
fn heap(t: &'static Ty, v: &Val) -> Result<HeapValue<'static>, String> {
    (t.put)(Wip::alloc_shape((t.shape)()), v).and_then(|w| w.build()).map_err(|e| e.to_string())
}
/// `f` is given what the shape says of the native values
fn native(t: &'static Ty, a: &Val, b: &Val) -> (Option<bool>, Option<Option<Ordering>>, String, String) {
    let mut out = None;
    (t.with_peek)(a, &mut |pa| {
        (t.with_peek)(b, &mut |pb| {
            let s = (t.shape)();
            let (x, y): (PtrConst<'static>, PtrConst<'static>) = (unsafe { core::mem::transmute(pa.data()) }, unsafe { core::mem::transmute(pb.data()) });
            let eq = s.vtable.eq.map(|f| unsafe { f(x, y) });
            let ord = s.vtable.partial_ord.map(|f| unsafe { f(x, y) });
            out = Some((eq, ord, Raw(s, x, false).to_string(), Raw(s, x, true).to_string()));
        })
    });
    out.unwrap()
}

fn main() {
    mc::main(Check {
        id: "K02",
        level: "model_checking",
        rule: "for each type of K01's universe all ordered pairs of values over small domains (up to a limit): the built values are inspected in full, shown, compared and ordered, each against the native value; each is then dropped or materialized as every type of the universe; all ordered pairs of types: built values of different types",
        assumptions: "what the operations of a shape itself do is C01's matter",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    let (limit, pairs) = (ctx.pick(300, 3000), ctx.pick(40, 120));
    let types = types();
    for t in &types {
        let vals = domain::values(t, 1, 4, limit);
        let shape = (t.shape)();
        for v in &vals {
            ctx.case(&format!("inspect {}", t.name), &|| format!("{v:?}"), || {
                let mut r = Ok(0);
                let (_, rep) = tracked(|| match heap(t, v) {
                    Ok(h) => {
                        let got = peekcheck::check_all(h.peek(), t, v, &types);
                        untracked(|| r = got.clone());
                        untracked(move || drop(got));
                        drop(h);
                    }
                    Err(e) => untracked(|| r = Err(e.clone())),
                });
                let mut n = r?;
                if !rep.clean() {
                    return Err(format!("memory: {}", rep.describe()));
                }
                // as every type: only its own
                for other in &types {
                    n += 1;
                    let mut got = None;
                    let (_, rep) = tracked(|| {
                        if let Ok(h) = heap(t, v) {
                            let x = (other.materialize)(h);
                            untracked(|| got = Some(x.clone()));
                            untracked(move || drop(x));
                        }
                    });
                    let want = (other == t).then(|| v.clone());
                    if got != Some(want) {
                        return Err(format!("materialized as {}: {got:?}", other.name));
                    }
                    if !rep.clean() {
                        return Err(format!("materialized as {}: memory: {}", other.name, rep.describe()));
                    }
                }
                Ok(CaseOut { class: fnv(t.name.as_bytes()), states: 1, transitions: n })
            });
        }
        for a in vals.iter().take(pairs) {
            for b in vals.iter().take(pairs) {
                ctx.case(&format!("pairs {}", t.name), &|| format!("{a:?} and {b:?}"), || {
                    let (eq, ord, display, debug) = native(t, a, b);
                    let (x, y) = (heap(t, a)?, heap(t, b)?);
                    if (x == y) != eq.unwrap_or(false) || (x != y) == eq.unwrap_or(false) {
                        return Err(format!("equal: {}, natively {eq:?}", x == y));
                    }
                    let o = x.partial_cmp(&y);
                    if o != ord.flatten() {
                        return Err(format!("ordered {o:?}, natively {ord:?}"));
                    }
                    if (x < y) != (o == Some(Ordering::Less)) || (x >= y) != matches!(o, Some(Ordering::Greater | Ordering::Equal)) {
                        return Err("operators disagree".into());
                    }
                    let (d, g) = (x.to_string(), format!("{x:?}"));
                    for (n, got, want, there) in [("display", &d, &display, shape.vtable.display.is_some()), ("debug", &g, &debug, shape.vtable.debug.is_some())] {
                        // hash maps are shown in any order
                        let ok = match there {
                            true if t.name.contains("HashMap") || t.closure().iter().any(|t| t.name.contains("HashMap")) => got.len() == want.len(),
                            true => got == want,
                            false => got.contains(want.as_str()),
                        };
                        if !ok {
                            return Err(format!("{n}: {got:?} instead of {want:?}"));
                        }
                    }
                    Ok(CaseOut { class: fnv(format!("{} {eq:?} {ord:?}", t.name).as_bytes()), states: 1, transitions: 6 })
                });
            }
        }
    }
    for a in &types {
        for b in &types {
            if a == b {
                continue;
            }
            ctx.case("types", &|| format!("{} with {}", a.name, b.name), || {
                let (Some(va), Some(vb)) = (domain::values(a, 1, 4, 4).pop(), domain::values(b, 1, 4, 4).pop()) else { return ok() };
                let (x, y) = (heap(a, &va)?, heap(b, &vb)?);
                if x == y || x.partial_cmp(&y).is_some() {
                    return Err("compared".into());
                }
                ok()
            });
        }
    }
}
