//! Exploration of builder histories against the model, shared by W01, W02 and W03.
use crate::native::*;
use crate::runner::*;
use crate::wipmodel::*;
use crate::{alloc, universe};
use facet_reflect::Wip;

#[derive(Debug, Clone)]
pub enum End {
    Abandon,
    BuildDrop,
    Materialize,
    MaterializeWrong,
    Probe(Prim),
}

#[derive(Debug, PartialEq, Clone)]
pub enum Out {
    /// operation number n of the history was refused
    Refused(usize),
    Abandoned,
    BuildErr,
    Built,
    Value(Val),
    WrongTypeAccepted,
    WrongTypeRefused,
    ProbeOk,
    ProbeErr,
    Observed(String),
}

/// Runs one history with one ending on the real builder.
pub fn run(root: &'static Ty, types: &[&'static Ty], hist: &[Prim], end: &End, obs: Option<&Model>) -> (Result<Out, String>, alloc::Report) {
    let wrong = if types[0] == <u32 as Native>::ty() { <String as Native>::ty() } else { <u32 as Native>::ty() };
    alloc::start();
    let r = catching(|| {
        let mut w = Wip::alloc_shape((root.shape)());
        for (i, p) in hist.iter().enumerate() {
            match exec(w, p, types) {
                Ok(x) => w = x,
                Err(_) => return Out::Refused(i),
            }
        }
        if let Some(m) = obs {
            if let Err(e) = observe(&w, m) {
                return untracked(|| Out::Observed(e));
            }
        }
        match end {
            End::Abandon => {
                drop(w);
                Out::Abandoned
            }
            End::BuildDrop => match w.build() {
                Ok(h) => {
                    drop(h);
                    Out::Built
                }
                Err(_) => Out::BuildErr,
            },
            End::Materialize => match w.build() {
                Ok(h) => match (root.materialize)(h) {
                    Some(v) => Out::Value(v),
                    None => Out::WrongTypeRefused,
                },
                Err(_) => Out::BuildErr,
            },
            End::MaterializeWrong => match w.build() {
                Ok(h) => match (wrong.materialize)(h) {
                    Some(_) => Out::WrongTypeAccepted,
                    None => Out::WrongTypeRefused,
                },
                Err(_) => Out::BuildErr,
            },
            End::Probe(p) => match exec(w, p, types) {
                Ok(_) => Out::ProbeOk,
                Err(e) => {
                    // errors can be shown
                    let _ = format!("{e} {e:?}");
                    Out::ProbeErr
                }
            },
        }
    });
    (r, alloc::stop())
}

pub fn describe(types: &[&'static Ty], hist: &[Prim]) -> String {
    hist.iter()
        .map(|p| match p {
            Prim::Put(t, v) => format!("put({}: {:?})", types[*t].name, v),
            Prim::PutPeek(t, v) => format!("put_peek({}: {:?})", types[*t].name, v),
            p => format!("{p:?}"),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

/// Calls `f` on every history within the budget, for every root and both step sizes.
pub fn all_histories(ctx: &mut Ctx, budget: u64, f: &mut dyn FnMut(&mut Ctx, &str, &'static Ty, &'static [&'static Ty], &Model, &[Prim])) {
    let mut roots = universe::roots();
    roots.push(universe::Big::ty());
    for root in roots {
        let types = universe::type_table(root);
        let m = Model::new(root, types);
        for compound in [false, true] {
            let mut depth = 1;
            let big = root.name == "Big";
            while depth < 14 && count(&m, 0, depth + 1, compound, budget) <= budget {
                depth += 1;
            }
            if big && depth < 2 {
                depth = 2;
            }
            let g = format!("{} {} depth {}", root.name, if compound { "coarse" } else { "fine" }, depth);
            explore(&m, &mut vec![], 0, depth, compound, &mut |m, h| f(ctx, &g, root, types, m, h));
        }
    }
    // all 64 fields, with each one left out, and in both directions
    let root = universe::Big::ty();
    let types = universe::type_table(root);
    for (dir, skip) in (0..2).flat_map(|d| (0..65).map(move |s| (d, s))) {
        let mut m = Model::new(root, types);
        let mut h = vec![];
        for i in 0..64usize {
            let i = if dir == 0 { i } else { 63 - i };
            if i == skip {
                continue;
            }
            let t = root.fields(None)[i].1();
            let v = (t.gens)(i as u64, 1).remove(0);
            for p in [Prim::Field(i), Prim::Put(types.iter().position(|x| *x == t).unwrap(), v), Prim::Pop] {
                assert!(m.apply(&p));
                h.push(p);
            }
        }
        f(ctx, "Big, all fields but one", root, types, &m, &h);
    }
    long_histories(ctx, f);
}

/// Histories that repeat themselves: many elements, many entries, deep nesting, the same place set
/// again and again; at every size, with everything finished and with the last part left open.
fn long_histories(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str, &'static Ty, &'static [&'static Ty], &Model, &[Prim])) {
    use std::collections::{BTreeMap, HashMap};
    type TyOf = &'static Ty;
    let roots: [TyOf; 12] = [
        <Vec<String>>::ty(), <Vec<universe::S2>>::ty(), <Vec<Option<universe::E>>>::ty(), <Vec<Vec<String>>>::ty(), <HashMap<String, String>>::ty(), <HashMap<String, universe::S2>>::ty(),
        <BTreeMap<String, Vec<String>>>::ty(), universe::Tree::ty(), universe::S2::ty(), universe::E::ty(), <Option<String>>::ty(), universe::SC::ty(),
    ];
    let max = ctx.pick(130, 520);
    for root in roots {
        let types = universe::type_table(root);
        for n in crate::domain::sizes(max) {
            for open in [false, true] {
                let mut m = Model::new(root, types);
                let mut h = vec![];
                let mut go = |p: Prim| {
                    assert!(m.apply(&p), "{p:?}");
                    h.push(p);
                };
                let at = |t: TyOf| types.iter().position(|x| *x == t).unwrap();
                let put = |t: TyOf, k: usize| Prim::Put(at(t), gens_ty(t, k as u64, 1, 4).remove(0));
                match &root.kind {
                    Kind::List(i) => {
                        go(Prim::BeginPush);
                        for k in 0..n {
                            go(Prim::Push);
                            go(put(i(), k));
                            go(Prim::Pop);
                        }
                        if open {
                            go(Prim::Push);
                        }
                    }
                    Kind::Map(k, v) => {
                        go(Prim::BeginMap);
                        for x in 0..n {
                            go(Prim::PushKey);
                            go(put(k(), x));
                            go(Prim::PushVal);
                            go(put(v(), x));
                            go(Prim::Pop);
                        }
                        if open {
                            go(Prim::PushKey);
                            go(put(k(), 0));
                            go(Prim::PushVal);
                        }
                    }
                    _ if root.name == "Tree" => {
                        for k in 0..n {
                            go(Prim::Field(0));
                            go(put(<String as Native>::ty(), k));
                            go(Prim::Pop);
                            go(Prim::Field(1));
                            go(Prim::BeginPush);
                            go(Prim::Push);
                        }
                        if !open {
                            go(put(root, n));
                            for _ in 0..n {
                                go(Prim::Pop);
                                go(Prim::Pop);
                            }
                        }
                    }
                    Kind::Struct(fs) => {
                        for k in 0..n {
                            for (i, x) in fs.iter().enumerate() {
                                go(Prim::Field(i));
                                go(put(x.1(), k));
                                go(Prim::Pop);
                            }
                        }
                        if open {
                            go(Prim::Field(0));
                        }
                    }
                    Kind::Enum(vs) => {
                        for k in 0..n {
                            let vi = k % vs.len();
                            go(Prim::Variant(vi));
                            for (i, x) in vs[vi].1.iter().enumerate() {
                                go(Prim::Field(i));
                                go(put(x.1(), k));
                                go(Prim::Pop);
                            }
                        }
                        if open {
                            go(Prim::Variant(2));
                        }
                    }
                    _ => {
                        for k in 0..n {
                            go(Prim::PushSome);
                            go(put(<String as Native>::ty(), k));
                            go(Prim::Pop);
                        }
                        if open {
                            go(Prim::PushSome);
                        }
                    }
                }
                f(ctx, &format!("{} long", root.name), root, types, &m, &h);
            }
        }
    }
}

pub fn class(m: &Model, extra: &str) -> u64 {
    let mut s = String::new();
    for f in &m.frames {
        shape_of(&f.st, &mut s);
        s.push_str(&format!("{}{:?}/", f.ty.name, std::mem::discriminant(&f.mode)));
    }
    s.push_str(extra);
    fnv(s.as_bytes())
}
fn shape_of(st: &St, s: &mut String) {
    match st {
        St::Unset => s.push('-'),
        St::Full(_) => s.push('#'),
        St::Fields(f) => {
            s.push('{');
            for x in f {
                shape_of(x, s);
            }
            s.push('}');
        }
        St::Variant(i, f) => {
            s.push_str(&format!("{i}("));
            for x in f {
                shape_of(x, s);
            }
            s.push(')');
        }
    }
}
