use facet_reflect::ISet;
use mc::native::*;
use mc::universe::Big;
use mc::wiprun::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "W02",
        level: "model_checking",
        rule: "every history of builder operations up to the depth given per group (the deepest within the budget); after each: frames, shape, mode, path, selected variant, set fields are compared with the reference model, and building must succeed exactly when the model says the value is complete, with the model's value; all sequences of operations to a length on sets of field indices, against a list; histories that repeat themselves to 130 elements, entries, levels or settings of the same place, each size, with the last part open or finished",
        assumptions: "reference model in wipmodel.rs (Model::apply), written from the documented meaning of the operations; zero-sized structs with several fields are left out",
        run,
    });
}
/// The set of fields that are set, against a list of them.
fn sets(ctx: &mut Ctx) {
    let Kind::Struct(fs) = &Big::ty().kind else { unreachable!() };
    let facet_core::Def::Struct(sd) = (Big::ty().shape)().def else { unreachable!() };
    assert!(fs.len() == 64 && sd.fields.len() == 64);
    let idx = [0usize, 1, 31, 32, 33, 62, 63];
    let depth = ctx.pick(3, 4);
    for start in 0..=64usize {
        ctx.case("index sets", &|| format!("of {start} fields"), || {
            let mut n = 0;
            fn go(s: ISet, m: &mut Vec<bool>, idx: &[usize], depth: usize, n: &mut u64) -> Result<(), String> {
                *n += 1;
                for i in 0..64 {
                    if s.has(i) != m[i] {
                        return Err(format!("{m:?}: has({i})"));
                    }
                }
                for c in 0..=64 {
                    if s.are_all_set(c) != m[..c].iter().all(|b| *b) {
                        return Err(format!("{m:?}: are_all_set({c})"));
                    }
                }
                if s.is_any_set() != m.contains(&true) {
                    return Err(format!("{m:?}: is_any_set"));
                }
                if depth == 0 {
                    return Ok(());
                }
                for i in idx {
                    for b in [true, false] {
                        let mut s = s;
                        let old = m[*i];
                        m[*i] = b;
                        if b { s.set(*i) } else { s.unset(*i) }
                        go(s, m, idx, depth - 1, n)?;
                        m[*i] = old;
                    }
                }
                let mut s = s;
                s.clear();
                go(s, &mut vec![false; 64], idx, 0, n)
            }
            let mut m = vec![false; 64];
            m[..start].fill(true);
            go(ISet::all(&sd.fields[..start]), &mut m, &idx, depth, &mut n)?;
            Ok(CaseOut { class: start as u64, states: n, transitions: n })
        });
    }
}
fn run(ctx: &mut Ctx) {
    sets(ctx);
    let budget = ctx.pick(80_000, 1_500_000);
    all_histories(ctx, budget, &mut |ctx, g, root, types, m, h| {
        ctx.case(g, &|| describe(types, h), || {
            let (r, _) = mc::wiprun::run(root, types, h, &End::Materialize, Some(m));
            let exp = match m.build() {
                Some(v) => Out::Value(v),
                None => Out::BuildErr,
            };
            match r {
                Ok(o) if o == exp => {}
                Ok(o) => return Err(format!("got {o:?}, expected {exp:?}")),
                Err(p) => return Err(format!("panic: {p}")),
            }
            Ok(CaseOut { class: class(m, ""), states: 1, transitions: h.len() as u64 + 1 })
        });
    });
}
