//! What the builder's errors name.
use facet_reflect::{ReflectError, Wip};
use mc::native::*;
use mc::wipmodel::*;
use mc::wiprun::*;
use mc::*;

fn is(s: &'static facet_core::Shape, t: &Ty) -> bool {
    s == (t.shape)()
}
fn names(e: &ReflectError, what: &[&str]) -> Result<(), String> {
    let text = e.to_string();
    match what.iter().find(|w| !text.contains(**w)) {
        Some(w) => Err(format!("{text:?} doesn't name {w:?}")),
        None => Ok(()),
    }
}
/// The error of building an incomplete value.
fn build_error(m: &Model, e: &ReflectError) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{e}: {what}"));
    let mut m = m.clone();
    // the frame that cannot be left
    loop {
        if m.frames.is_empty() {
            break;
        }
        let top = m.frames.last().unwrap().clone();
        if !m.apply(&Prim::Pop) {
            let name = (top.ty.shape)().to_string();
            return match e {
                ReflectError::UninitializedValue { shape } if !top.complete() && is(shape, top.ty) => names(e, &[&name]),
                ReflectError::OperationFailed { shape, .. } if top.mode == Mode::Key && top.complete() && is(shape, top.ty) => names(e, &[&name]),
                _ => bad(&format!("the place that's not complete is a {}", top.ty.name)),
            };
        }
    }
    let root = m.root.unwrap();
    let name = (root.ty.shape)().to_string();
    let missing = |f: &str, fields: &[(&'static str, TyFn)], st: &[St]| fields.iter().zip(st).any(|((n, _), s)| *n == f && !s.is_complete());
    match (e, &root.st) {
        (ReflectError::UninitializedField { shape, field_name }, St::Fields(st)) => {
            if !is(shape, root.ty) || !missing(field_name, root.ty.fields(None), st) {
                return bad("names a field that is not missing");
            }
            names(e, &[&format!("{name}::{field_name}")])
        }
        (ReflectError::UninitializedEnumField { shape, field_name, variant_name }, St::Variant(i, st)) => {
            let Kind::Enum(vs) = &root.ty.kind else { unreachable!() };
            if !is(shape, root.ty) || *variant_name != vs[*i].0 || !missing(field_name, &vs[*i].1, st) {
                return bad("names a field that is not missing");
            }
            names(e, &[&format!("{name}::{field_name}"), &format!("'{variant_name}'")])
        }
        (ReflectError::NoVariantSelected { shape }, St::Unset) if root.ty.is_enum() && is(shape, root.ty) => names(e, &[&name]),
        (ReflectError::UninitializedValue { shape }, St::Unset) if !root.ty.is_enum() && is(shape, root.ty) => names(e, &[&name]),
        (_, st) => bad(&format!("of the {name}, {st:?} is there")),
    }
}
/// The error of a refused operation.
fn op_error(m: &Model, p: &Prim, e: &ReflectError) -> Result<(), String> {
    let bad = |what: &str| Err(format!("{e}: {what}"));
    let top = m.top();
    let place = |s: &'static facet_core::Shape| match top {
        Some(f) => is(s, f.ty),
        None => s == <() as facet::Facet>::SHAPE,
    };
    let ty = top.map(|f| f.ty);
    let given = match p {
        Prim::Put(i, _) | Prim::PutPeek(i, _) => Some(m.types[*i]),
        _ => None,
    };
    if let (Some(f), Some(g)) = (top, given) {
        if f.mode != Mode::None {
            let ReflectError::WrongShape { expected, actual } = e else { return bad("not about the type") };
            if !is(expected, f.ty) || !is(actual, g) {
                return bad(&format!("a {} was given for a {}", g.name, f.ty.name));
            }
            names(e, &[&format!("expected {}", (f.ty.shape)()), &(g.shape)().to_string()])?;
            let after = e.to_string().split_once("expected ").unwrap().1[(f.ty.shape)().to_string().len()..].to_string();
            return if after.contains(&(g.shape)().to_string()) { Ok(()) } else { bad("says it the other way round") };
        }
    }
    match e {
        ReflectError::WasNotA { expected, actual } => {
            if !place(actual) {
                return bad("names another type than the place's");
            }
            let ty = ty.unwrap();
            let truly = match expected.split_whitespace().next().unwrap_or("") {
                "struct" => !ty.is_struct() && (!expected.contains("enum") || !ty.is_enum()),
                "enum" => !ty.is_enum(),
                "list" => !matches!(ty.kind, Kind::List(_)),
                "map" => !matches!(ty.kind, Kind::Map(..)),
                "option" => !matches!(ty.kind, Kind::Option(_)),
                _ => return bad("harness: unknown kind"),
            };
            if !truly {
                return bad("the place is what was expected");
            }
            names(e, &[&format!("expected {expected}"), &(ty.shape)().to_string()])
        }
        ReflectError::FieldError { shape, field_error } => {
            if matches!(p, Prim::FieldNamed(_) | Prim::VariantNamed(_)) && *field_error != facet_core::FieldError::NoSuchField {
                return bad("a name isn't out of bounds");
            }
            if !place(shape) || !matches!(p, Prim::Field(_) | Prim::FieldNamed(_) | Prim::Variant(_) | Prim::VariantNamed(_)) {
                return bad("another type than the place's");
            }
            names(e, &[&(ty.unwrap().shape)().to_string(), &field_error.to_string()])
        }
        ReflectError::OperationFailed { shape, operation } => {
            // the unit type stands for no type in particular
            if !place(shape) && *shape != <() as facet::Facet>::SHAPE {
                return bad("names another type than the place's");
            }
            names(e, &[operation, &shape.to_string()])
        }
        ReflectError::UninitializedValue { shape } => {
            if !place(shape) || top.is_some_and(|f| f.complete()) {
                return bad("names a value that is complete or elsewhere");
            }
            names(e, &[&shape.to_string()])
        }
        ReflectError::InvariantViolation { .. } if top.is_none() => Ok(()),
        _ => bad(&format!("refusing {p:?}")),
    }
}

fn main() {
    mc::main(Check {
        id: "W07",
        level: "model_checking",
        rule: "in every state reached by a builder history up to the depth given per group: the error of building it, if it is incomplete, of materializing it as another type, and of every operation of the builder that must be refused there, with every kind of argument: the types, fields and variants named are those concerned according to the reference model, and they are in the text of the error",
        assumptions: "reference model in wipmodel.rs; the wording of errors is not looked at",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    let budget = ctx.pick(6_000, 100_000);
    all_histories(ctx, budget, &mut |ctx, g, root, types, m, h| {
        ctx.case(g, &|| describe(types, h), || {
            let start = || {
                let mut w = Wip::alloc_shape((root.shape)());
                for p in h {
                    w = exec(w, p, types).map_err(|e| format!("harness: {p:?} refused: {e}"))?;
                }
                Ok::<_, String>(w)
            };
            let mut n = 0;
            let mut kinds = 0u64;
            for p in probes(m) {
                if m.clone().apply(&p) {
                    continue;
                }
                n += 1;
                match catching(|| start().map(|w| exec(w, &p, types).err())) {
                    Ok(Ok(Some(e))) => {
                        kinds |= 1 << (fnv(format!("{:?}", std::mem::discriminant(&e)).as_bytes()) % 64);
                        op_error(m, &p, &e).map_err(|w| format!("{p:?}: {w}"))?
                    }
                    Ok(Ok(None)) => return Err(format!("{p:?} accepted")),
                    Ok(Err(e)) => return Err(e),
                    Err(e) => return Err(format!("{p:?}: panic: {e}")),
                }
            }
            n += 1;
            match catching(|| start().map(|w| w.build())) {
                Ok(Ok(Ok(b))) => {
                    if m.build().is_none() {
                        return Err("built, though incomplete".into());
                    }
                    // as another type
                    let e = if root.name == "String" { b.materialize::<u32>().err() } else { b.materialize::<String>().err() };
                    match e {
                        Some(ReflectError::WrongShape { expected, actual }) => {
                            let other = if root.name == "String" { <u32 as Native>::ty() } else { <String as Native>::ty() };
                            if !(is(expected, root) && is(actual, other) || is(expected, other) && is(actual, root)) {
                                return Err(format!("materialized as {}: expected {expected}, actual {actual}", other.name));
                            }
                        }
                        e => return Err(format!("materialized as another type: {e:?}")),
                    }
                }
                Ok(Ok(Err(e))) => {
                    if m.build().is_some() {
                        return Err(format!("not built, though complete: {e}"));
                    }
                    build_error(m, &e)?
                }
                Ok(Err(e)) => return Err(e),
                Err(e) => return Err(format!("build: panic: {e}")),
            }
            Ok(CaseOut { class: class(m, &kinds.to_string()), states: 1, transitions: n * (h.len() as u64 + 1) })
        });
    });
}
