//! Every value of the universe, taken apart and rebuilt by the builder in every listed way.
use facet_reflect::{ReflectError, Wip};
use mc::native::*;
use mc::wipmodel::{Prim, supported};
use mc::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Leaf {
    Put,
    PutPeek,
    Parse,
    Default,
    FromFn,
}
/// One way of building a value.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct How {
    /// last field first, last key first
    rev: bool,
    by_name: bool,
    /// from this depth on, values are put whole
    whole_at: u32,
    leaf: Leaf,
    /// everything is set to something else first
    over: bool,
    /// every field is entered and left, then entered again
    twice: bool,
    /// the inside of an option is put into the option itself
    into_option: bool,
}
const PLAIN: How = How { rev: false, by_name: false, whole_at: 9, leaf: Leaf::Put, over: false, twice: false, into_option: false };

fn other(t: &'static Ty) -> Option<Val> {
    gens_ty(t, 77, 1, 3).into_iter().next()
}

type R<'a> = Result<Wip<'a>, ReflectError>;

fn text(v: &Val) -> Option<String> {
    Some(match v {
        Val::I(i) => i.to_string(),
        Val::B(b) => b.to_string(),
        Val::C(c) => c.to_string(),
        Val::S(s) => s.clone(),
        Val::F(f) => f64::from_bits(*f).to_string(),
        _ => return None,
    })
}

fn whole<'a>(w: Wip<'a>, t: &'static Ty, v: &Val, how: How, n: &mut u64) -> R<'a> {
    *n += 1;
    match how.leaf {
        Leaf::PutPeek if supported(t, &Prim::PutPeek(0, Val::Unit)) => (t.put_peek)(w, v),
        Leaf::Parse => {
            let s = untracked(|| text(v).filter(|s| supported(t, &Prim::Parse(s.clone())) && t.parse.and_then(|f| f(s)).as_ref() == Some(v)));
            match s {
                Some(s) => {
                    let r = w.parse(&s);
                    untracked(move || drop(s));
                    r
                }
                None => (t.put)(w, v),
            }
        }
        Leaf::Default if supported(t, &Prim::Default) && untracked(|| t.default.is_some_and(|d| d() == *v)) => w.put_default(),
        Leaf::FromFn => {
            untracked(|| PLACED.set(Some(v.clone())));
            w.put_from_fn(t.place)
        }
        _ => (t.put)(w, v),
    }
}

fn fields<'a>(mut w: Wip<'a>, fs: &[(&'static str, TyFn)], v: &[Val], how: How, depth: u32, n: &mut u64) -> R<'a> {
    for round in 0..if how.twice { 2 } else { 1 } {
        for k in 0..fs.len() {
            let i = if how.rev ^ (round == 1) { fs.len() - 1 - k } else { k };
            *n += 2;
            w = if how.by_name { w.field_named(fs[i].0)? } else { w.field(i)? };
            // the first round leaves every other field as it is, and what is inside the others
            // unfinished where that is possible
            if how.twice && round == 0 && i % 2 == 1 {
                if let (Kind::Struct(inner), Val::Struct(iv)) = (&fs[i].1().kind, &v[i]) {
                    if let Some(first) = inner.first() {
                        w = w.field(0)?;
                        w = build(w, first.1(), &iv[0], how, depth + 2, n)?;
                        w = w.pop()?;
                    }
                }
                w = w.pop()?;
                continue;
            }
            w = build(w, fs[i].1(), &v[i], how, depth + 1, n)?;
            w = w.pop()?;
        }
    }
    Ok(w)
}

/// Sets the current place to `v`.
fn build<'a>(mut w: Wip<'a>, t: &'static Ty, v: &Val, how: How, depth: u32, n: &mut u64) -> R<'a> {
    if depth >= how.whole_at {
        return whole(w, t, v, how, n);
    }
    if how.over {
        if let Some(o) = untracked(|| other(t)) {
            *n += 1;
            w = (t.put)(w, &o)?;
            untracked(move || drop(o));
        }
    }
    match (&t.kind, v) {
        (Kind::Struct(fs), Val::Struct(fv)) if !fs.is_empty() => fields(w, fs, fv, how, depth, n),
        (Kind::Enum(vs), Val::Enum(i, fv)) => {
            *n += 1;
            w = if how.by_name { w.variant_named(vs[*i].0)? } else { w.variant(*i)? };
            fields(w, &vs[*i].1, fv, how, depth, n)
        }
        (Kind::Option(inner), Val::Some(x)) => {
            *n += 2;
            if how.into_option {
                return (inner().put)(w, x);
            }
            w = build(w.push_some()?, inner(), x, how, depth + 1, n)?;
            w.pop()
        }
        (Kind::Option(inner), Val::None) if how.by_name || how.twice => {
            // begun as Some, then found to be None
            *n += 3;
            w = w.push_some()?;
            if how.twice {
                if let Kind::Struct(f) = &inner().kind {
                    if let (true, Some((_, t))) = (f.len() > 1, f.first()) {
                        if let Some(o) = untracked(|| other(t())) {
                            w = w.field(0)?;
                            w = (t().put)(w, &o)?;
                            w = w.pop()?;
                            untracked(move || drop(o));
                        }
                    }
                }
            }
            if inner().size == 0 && inner().is_struct() {
                // nothing is missing in it: it is Some already
                return (t.put)(w.pop()?, v);
            }
            w.pop_some_push_none()?.pop()
        }
        (Kind::List(inner), Val::List(l)) => {
            *n += 1;
            if how.over || how.by_name || how.twice || l.is_empty() {
                w = w.put_empty_list()?;
            } else {
                w = w.begin_pushback()?;
            }
            for (i, x) in l.iter().enumerate() {
                if how.twice && i > 0 {
                    // goes on with what is there
                    *n += 1;
                    w = w.begin_pushback()?;
                }
                *n += 2;
                w = build(w.push()?, inner(), x, how, depth + 1, n)?;
                w = w.pop()?;
            }
            Ok(w)
        }
        (Kind::Map(kt, vt), Val::Map(m)) => {
            *n += 1;
            if how.over || how.by_name || m.is_empty() {
                w = w.put_empty_map()?;
            } else {
                w = w.begin_map_insert()?;
            }
            let mut es: Vec<(&Val, &Val)> = untracked(|| m.iter().collect());
            if how.rev {
                es.reverse();
            }
            // a key inserted again replaces its value
            if how.twice {
                if let Some(o) = untracked(|| other(vt())) {
                    for (k, _) in &es {
                        *n += 3;
                        w = build(w.push_map_key()?, kt(), k, how, depth + 1, n)?;
                        w = (vt().put)(w.push_map_value()?, &o)?;
                        w = w.pop()?;
                    }
                    untracked(move || drop(o));
                }
            }
            for (i, (k, x)) in es.iter().enumerate() {
                if how.twice && i > 0 {
                    *n += 1;
                    w = w.begin_map_insert()?;
                }
                *n += 3;
                w = build(w.push_map_key()?, kt(), k, how, depth + 1, n)?;
                w = build(w.push_map_value()?, vt(), x, how, depth + 1, n)?;
                w = w.pop()?;
            }
            untracked(move || drop(es));
            Ok(w)
        }
        _ => whole(w, t, v, how, n),
    }
}

fn hows() -> Vec<How> {
    let mut v = vec![];
    let leaves = [Leaf::Put, Leaf::PutPeek, Leaf::Parse, Leaf::Default, Leaf::FromFn];
    let b = [false, true];
    for rev in b {
        for by_name in b {
            for whole_at in [0, 1, 2, 9] {
                for leaf in leaves {
                    for over in b {
                        for twice in b {
                            for into_option in b {
                                let h = How { rev, by_name, whole_at, leaf, over, twice, into_option };
                                // put whole at the root, nothing else matters
                                if whole_at == 0 && (rev || by_name || over || twice || into_option) {
                                    continue;
                                }
                                v.push(h);
                            }
                        }
                    }
                }
            }
        }
    }
    assert!(v.contains(&PLAIN));
    v
}

fn main() {
    mc::main(Check {
        id: "W06",
        level: "model_checking",
        rule: "for each type of the universe all values over small domains (up to the limit given by the group sizes), and values with one string, list or map grown to 4097 characters or 130 elements or nested to 65 levels, x ways of building: fields and keys in declared or reverse order, by index or by name, put whole from depth 0, 1, 2 or never, leaves put, put by reference, parsed, defaulted or made by a function, over other contents or not, in one visit or two (parts entered, left unfinished and entered again, keys inserted again, options begun as Some and turned into None), inside of options put into the option",
        assumptions: "the reference description of each type (native.rs) is generated from the same definition as the type, by a macro of the harness; arrays, smart pointers and unit-like structs are put whole (the builder has no operations for their parts)",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    let limit = ctx.pick(200, 4000);
    let hows = hows();
    let (long, many, depth) = ctx.pick((4097, 130, 65), (65537, 1025, 130));
    for t in &ktypes::types() {
        let large = domain::large(t, long, many, depth);
        if large.is_empty() {
            continue;
        }
        for how in hows.iter().filter(|h| h.whole_at == 9 && matches!(h.leaf, Leaf::Put | Leaf::Parse) && !h.into_option && !(h.rev && h.by_name)) {
            for part in large.chunks(40) {
                ctx.case(&format!("rebuild large {}", t.name), &|| format!("{how:?}, sizes {}..={}", part[0].0, part.last().unwrap().0), || rebuild(t, part.iter().map(|v| &v.1), *how));
            }
        }
    }
    for t in &ktypes::types() {
        let vals = domain::values(t, 1, 4, limit);
        for how in &hows {
            ctx.case(&format!("rebuild {}", t.name), &|| format!("{how:?}"), || rebuild(t, vals.iter(), *how));
        }
    }
}
fn rebuild<'a>(t: &'static Ty, vals: impl Iterator<Item = &'a Val>, how: How) -> CaseResult {
    let (mut n, mut states) = (0, 0);
    for v in vals {
        states += 1;
        let show = || domain::show(v);
        let mut got: Option<Result<Option<Val>, String>> = None;
        let (r, rep) = tracked(|| {
            catching(|| match build(Wip::alloc_shape((t.shape)()), t, v, how, 0, &mut n).and_then(|w| w.build()) {
                Ok(h) => {
                    let x = (t.materialize)(h);
                    untracked(|| got = Some(Ok(x.clone())));
                    untracked(move || drop(x));
                }
                Err(e) => {
                    untracked(|| got = Some(Err(e.to_string())));
                    drop(e)
                }
            })
        });
        if MISPLACED.take() {
            return Err(format!("{}: a part was given a place that is not aligned for its type", show()));
        }
        if let Err(p) = r {
            return Err(format!("{}: panicked: {p}", show()));
        }
        match got {
            Some(Ok(Some(x))) if x == *v => {}
            Some(Ok(x)) => return Err(format!("{} became {x:.300?}", show())),
            Some(Err(e)) => return Err(format!("{}: refused: {e}", show())),
            None => return Err(format!("{}: no result", show())),
        }
        if !rep.clean() {
            return Err(format!("{}: memory: {}", show(), rep.describe()));
        }
    }
    Ok(CaseOut { class: fnv(t.name.as_bytes()), states: states, transitions: n })
}
