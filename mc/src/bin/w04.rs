//! Types with invariants: every value over a small domain, set in every way and order.
use facet_reflect::{Peek, ReflectError, Wip};
use mc::native::*;
use mc::*;

type Way = u8;

native_struct!(#[facet(invariants = "ok")] One { lo: u8, hi: u8, name: String });
impl One {
    fn ok(&self) -> bool {
        self.lo <= self.hi
    }
}
native_struct!(#[derive(Default)] #[facet(invariants = "not_empty")] #[facet(invariants = "short")] #[facet(invariants = "even")] Three { name: String, n: i16 } default);
impl Three {
    fn not_empty(&self) -> bool {
        !self.name.is_empty()
    }
    fn short(&self) -> bool {
        self.name.len() <= 2
    }
    fn even(&self) -> bool {
        self.n % 2 == 0
    }
}
native_tuple_struct!(#[facet(invariants = "small")] #[facet(invariants = "nonzero")] Tup(0: i16, 1: String));
impl Tup {
    fn small(&self) -> bool {
        self.0.unsigned_abs() < 100
    }
    fn nonzero(&self) -> bool {
        self.0 != 0 || self.1 == "zero"
    }
}
native_struct!(#[facet(invariants = "never")] Never { a: String });
impl Never {
    fn never(&self) -> bool {
        false
    }
}
native_struct!(#[facet(invariants = "whole")] Nest { inner: Plain, opt: Option<String>, list: Vec<String> });
native_struct!(Plain { a: u8, s: String });
impl Nest {
    fn whole(&self) -> bool {
        self.list.len() == self.inner.a as usize && self.opt.is_some() == (self.inner.s == "yes")
    }
}

fn set<'a>(w: Wip<'a>, t: &'static Ty, v: &Val, way: Way) -> Result<Wip<'a>, ReflectError> {
    match way {
        0 => (t.put)(w, v),
        1 => w.parse(&text(v)),
        2 => {
            let Val::I(i) = v else { unreachable!() };
            w.try_put_f64(*i as f64)
        }
        3 => w.put_default(),
        // something else first
        _ => {
            let other = (t.gens)(7, 1).remove(0);
            let w = (t.put)(w, &other)?;
            (t.put)(w, v)
        }
    }
}
fn text(v: &Val) -> String {
    match v {
        Val::I(i) => i.to_string(),
        Val::S(s) => s.clone(),
        v => panic!("{v:?}"),
    }
}
fn ways(t: &'static Ty, v: &Val) -> Vec<Way> {
    let mut w = vec![0, 4];
    if matches!(v, Val::I(_) | Val::S(_)) {
        w.push(1);
    }
    if matches!(v, Val::I(_)) {
        w.push(2);
    }
    if t.default.is_some_and(|d| d() == *v) {
        w.push(3);
    }
    w
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn product<T: Clone>(d: &[Vec<T>]) -> Vec<Vec<T>> {
    d.iter().fold(vec![vec![]], |acc, xs| {
        acc.iter().flat_map(|a| xs.iter().map(move |x| a.iter().cloned().chain([x.clone()]).collect())).collect()
    })
}

/// builds and compares
fn judge<T: Native>(
    v: &Val,
    valid: bool,
    how: impl for<'a> FnOnce(Wip<'a>) -> Result<Wip<'a>, ReflectError>,
) -> CaseResult {
    let mut got: Option<Result<Option<Val>, ReflectError>> = None;
    let (_, rep) = tracked(|| {
        let w = match how(Wip::alloc::<T>()) {
            Ok(w) => w,
            Err(e) => {
                untracked(|| got = Some(Err(e)));
                return;
            }
        };
        match w.build() {
            Ok(h) => match h.materialize::<T>() {
                Ok(x) => untracked(|| got = Some(Ok(Some(x.unmake())))).then_drop(x),
                Err(e) => untracked(|| got = Some(Err(e))),
            },
            Err(ReflectError::InvariantViolation { .. }) => untracked(|| got = Some(Ok(None))),
            Err(e) => untracked(|| got = Some(Err(e))),
        }
    });
    if !rep.clean() {
        return Err(rep.describe());
    }
    match (got.unwrap(), valid) {
        (Ok(None), false) => {}
        (Ok(Some(x)), true) if x == *v => {}
        (g, _) => return Err(format!("got {g:?}, expected {}", if valid { "the value" } else { "a violation of the invariant" })),
    }
    Ok(CaseOut { class: fnv(format!("{v:?}").as_bytes()), states: 1, transitions: 1 })
}
trait ThenDrop {
    fn then_drop<T>(self, x: T);
}
impl ThenDrop for () {
    fn then_drop<T>(self, x: T) {
        drop(x)
    }
}

fn all<T: Native>(ctx: &mut Ctx, name: &str, domains: Vec<Vec<Val>>, valid: fn(&T) -> bool, json: bool) {
    let ty = T::ty();
    let fields = ty.fields(None);
    let n = fields.len();
    for vals in product(&domains) {
        let v = Val::Struct(vals.clone());
        let good = valid(&T::make(&v));
        // whole
        ctx.case(name, &|| format!("{v:?} put whole"), || judge::<T>(&v, good, |w| (ty.put)(w, &v)));
        ctx.case(name, &|| format!("{v:?} put_peek whole"), || {
            let x: &'static T = Box::leak(Box::new(T::make(&v)));
            judge::<T>(&v, good, |w| w.put_peek(Peek::new(x)))
        });
        if ty.default.is_some_and(|d| d() == v) {
            ctx.case(name, &|| format!("{v:?} put_default whole"), || judge::<T>(&v, good, |w| w.put_default()));
        }
        // a valid or invalid whole value first, then one field changed
        for other in product(&domains) {
            for i in 0..n {
                let mut fin = other.clone();
                fin[i] = vals[i].clone();
                let fin = Val::Struct(fin);
                let fin_ok = valid(&T::make(&fin));
                let ov = Val::Struct(other.clone());
                ctx.case(name, &|| format!("{ov:?} put whole, field {i} set to {:?}", vals[i]), || {
                    judge::<T>(&fin, fin_ok, |w| {
                        let w = (ty.put)(w, &ov)?.field(i)?;
                        set(w, fields[i].1(), &vals[i], 0)?.pop()
                    })
                });
            }
        }
        // field by field
        let w: Vec<Vec<Way>> = (0..n).map(|i| ways(fields[i].1(), &vals[i])).collect();
        for order in perms(n) {
            for ws in product(&w) {
                ctx.case(name, &|| format!("{v:?} fields set in order {order:?} ways {ws:?}"), || {
                    judge::<T>(&v, good, |mut w| {
                        for &i in &order {
                            w = set(w.field(i)?, fields[i].1(), &vals[i], ws[i])?.pop()?;
                        }
                        Ok(w)
                    })
                });
            }
        }
        if json {
            for order in perms(n) {
                ctx.case(name, &|| format!("{v:?} from JSON, members in order {order:?}"), || {
                    let mut s = String::from("{");
                    for (k, &i) in order.iter().enumerate() {
                        s += &format!("{}\"{}\":{}", if k > 0 { "," } else { "" }, fields[i].0, js(&vals[i], fields[i].1()));
                    }
                    s += "}";
                    let mut got = None;
                    let (_, rep) = tracked(|| match facet_json::from_str::<T>(&s) {
                        Ok(x) => untracked(|| got = Some(x.unmake())).then_drop(x),
                        Err(e) => drop(e),
                    });
                    if !rep.clean() {
                        return Err(rep.describe());
                    }
                    let exp = good.then(|| v.clone());
                    if got != exp {
                        return Err(format!("{s} gave {got:?}, expected {exp:?}"));
                    }
                    ok()
                });
            }
        }
    }
}

fn js(v: &Val, t: &'static Ty) -> String {
    match v {
        Val::I(i) => i.to_string(),
        Val::S(s) => format!("{s:?}"),
        Val::None => "null".into(),
        Val::Some(v) => js(v, t),
        Val::List(l) => format!("[{}]", l.iter().map(|v| js(v, t)).collect::<Vec<_>>().join(",")),
        Val::Struct(f) => {
            let fields = t.fields(None);
            let m: Vec<String> = f.iter().zip(fields).map(|(v, f)| format!("\"{}\":{}", f.0, js(v, f.1()))).collect();
            format!("{{{}}}", m.join(","))
        }
        v => panic!("{v:?}"),
    }
}

fn ints(v: &[i128]) -> Vec<Val> {
    v.iter().map(|i| Val::I(*i)).collect()
}
fn strs(v: &[&str]) -> Vec<Val> {
    v.iter().map(|i| Val::S(i.to_string())).collect()
}

fn main() {
    mc::main(Check {
        id: "W04",
        level: "model_checking",
        rule: "for every type: all combinations of the values of a small domain for its fields, put whole, by reference, by default, or field by field in every order and in every way (put, parsed, from a float, defaulted, overwritten), or replaced in one field afterwards, or deserialized from JSON with members in every order",
        assumptions: "the invariants of the type being built are checked, not those of the types it is made of",
        run,
    });
}
fn run(ctx: &mut Ctx) {
    let one = if ctx.thorough() { vec![ints(&[0, 1, 2, 127, 128, 255]), ints(&[0, 1, 2, 127, 128, 255]), strs(&["", "n"])] } else { vec![ints(&[0, 1, 255]), ints(&[0, 1, 254, 255]), strs(&["n"])] };
    all::<One>(ctx, "One", one, One::ok, true);
    let three = vec![strs(&["", "x", "yy", "zzz"]), ints(&[0, 1, 2, -1, -32768, 32767])];
    all::<Three>(ctx, "Three", three, |t| t.not_empty() && t.short() && t.even(), true);
    let tup = vec![ints(&[0, 99, 100, -99, -100, -32768]), strs(&["", "zero", "one"])];
    all::<Tup>(ctx, "Tup", tup, |t| t.small() && t.nonzero(), false);
    all::<Never>(ctx, "Never", vec![strs(&["", "a"])], |_| false, true);
    let plain = |a, s: &str| Val::Struct(vec![Val::I(a), Val::S(s.into())]);
    let nest = vec![
        vec![plain(0, "yes"), plain(1, "no"), plain(1, "yes")],
        vec![Val::None, Val::Some(Box::new(Val::S("o".into())))],
        vec![Val::List(vec![]), Val::List(strs(&["l"]))],
    ];
    all::<Nest>(ctx, "Nest", nest, Nest::whole, true);
}
