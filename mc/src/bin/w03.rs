use mc::wipmodel::*;
use mc::wiprun::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "W03",
        level: "model_checking",
        rule: "in every state reached by a builder history up to the depth given per group, every operation of the builder with every kind of argument (all types of the root and foreign ones for put, indices and names in and out of range): it must be refused exactly when the reference model says so, and never panic; histories that repeat themselves to 130 elements, entries, levels or settings of the same place, each size, with the last part open or finished",
        assumptions: "structs of at most 64 fields; the root frame may be popped once, after which everything but build is refused",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    let budget = ctx.pick(6_000, 100_000);
    all_histories(ctx, budget, &mut |ctx, g, root, types, m, h| {
        ctx.case(g, &|| describe(types, h), || {
            let mut t = 0;
            for p in probes(m) {
                let mut m2 = m.clone();
                let exp = if m2.apply(&p) { Out::ProbeOk } else { Out::ProbeErr };
                let (r, _) = mc::wiprun::run(root, types, h, &End::Probe(p.clone()), None);
                match r {
                    Ok(o) if o == exp => {}
                    Ok(o) => return Err(format!("{p:?}: got {o:?}, expected {exp:?}")),
                    Err(e) => return Err(format!("{p:?}: panic: {e}")),
                }
                t += h.len() as u64 + 1;
            }
            // materializing as another type
            let exp = if m.build().is_some() { Out::WrongTypeRefused } else { Out::BuildErr };
            let (r, _) = mc::wiprun::run(root, types, h, &End::MaterializeWrong, None);
            match r {
                Ok(o) if o == exp => {}
                Ok(o) => return Err(format!("materialize as another type: got {o:?}, expected {exp:?}")),
                Err(e) => return Err(format!("materialize as another type: panic: {e}")),
            }
            Ok(CaseOut { class: class(m, ""), states: 1, transitions: t })
        });
    });
}
