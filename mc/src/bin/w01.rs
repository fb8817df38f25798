use mc::wipmodel::*;
use mc::wiprun::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "W01",
        level: "model_checking",
        rule: "every history of builder operations up to the depth given per group (the deepest within the budget), each ended by dropping the builder, building and dropping, building and materializing, materializing as a wrong type, and (at smaller depth) by every failing operation; every allocation and free is accounted for; histories that repeat themselves to 130 elements, entries, levels or settings of the same place, each size, with the last part open or finished",
        assumptions: "values put are distinct heap-owning strings and small integers; allocation tracking detects leaks, double frees, frees with a wrong layout and writes after free, not reads of freed memory that change nothing",
        run,
    });
}
fn mem(r: Result<Out, String>, rep: alloc::Report) -> Result<(), String> {
    if let Err(p) = &r {
        return Err(format!("panic: {p}"));
    }
    if rep.overflow {
        return Err("HARNESS PANIC allocation table full".into());
    }
    if !rep.clean() {
        return Err(format!("{} ({:?})", rep.describe(), r.unwrap()));
    }
    Ok(())
}
fn run(ctx: &mut Ctx) {
    let budget = ctx.pick(40_000, 800_000);
    all_histories(ctx, budget, &mut |ctx, g, root, types, m, h| {
        ctx.case(g, &|| describe(types, h), || {
            for e in [End::Abandon, End::BuildDrop, End::Materialize, End::MaterializeWrong] {
                let (r, rep) = run1(root, types, h, &e);
                mem(r, rep).map_err(|x| format!("{e:?}: {x}"))?;
            }
            Ok(CaseOut { class: class(m, ""), states: 1, transitions: h.len() as u64 * 4 + 4 })
        });
    });
    let budget = ctx.pick(5_000, 60_000);
    all_histories(ctx, budget, &mut |ctx, g, root, types, m, h| {
        ctx.case(&format!("{g}, probes"), &|| describe(types, h), || {
            let mut t = 0;
            for p in probes(m) {
                let e = End::Probe(p);
                let (r, rep) = run1(root, types, h, &e);
                mem(r, rep).map_err(|x| format!("{e:?}: {x}"))?;
                t += h.len() as u64 + 1;
            }
            Ok(CaseOut { class: class(m, "probe"), states: 1, transitions: t })
        });
    });
}
fn run1(root: &'static mc::native::Ty, types: &[&'static mc::native::Ty], h: &[Prim], e: &End) -> (Result<Out, String>, alloc::Report) {
    mc::wiprun::run(root, types, h, e, None)
}
