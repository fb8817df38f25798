//! All values of a type over small domains.
use crate::native::*;
use std::collections::BTreeMap;

/// Interesting values of a leaf type: those the type parses from these texts.
pub fn edges(t: &'static Ty) -> Vec<Val> {
    const TEXTS: &[&str] = &[
        "0", "1", "-1", "127", "128", "-128", "255", "256", "32767", "-32768", "65535", "2147483647", "-2147483648",
        "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615",
        "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728",
        "340282366920938463463374607431768211455", "1.5", "-0.0", "NaN", "inf", "1e300", "true", "false", "", "é", "\u{10ffff}",
        "a\"b\\c\n",
    ];
    let mut out: Vec<Val> = vec![];
    if let Some(parse) = t.parse {
        for x in TEXTS {
            if t.name == "String" && x.parse::<f64>().is_ok() && !x.starts_with('1') {
                continue;
            }
            if let Some(v) = parse(x) {
                if !out.contains(&v) {
                    out.push(v)
                }
            }
        }
    }
    if out.is_empty() {
        out = (t.gens)(0, 4);
    }
    out
}

/// All combinations if there are at most `limit`, else all that differ from the first one in at
/// most one position (or two, if that's within the limit).
pub fn combos(doms: &[Vec<Val>], limit: usize) -> Vec<Vec<Val>> {
    if doms.iter().any(|d| d.is_empty()) {
        return vec![];
    }
    let n = doms.iter().try_fold(1usize, |a, d| a.checked_mul(d.len()).filter(|x| *x <= limit));
    if n.is_some() {
        let mut out = vec![vec![]];
        for d in doms {
            out = out
                .into_iter()
                .flat_map(|p| {
                    d.iter().map(move |v| {
                        let mut q = p.clone();
                        q.push(v.clone());
                        q
                    })
                })
                .collect();
        }
        return out;
    }
    let base: Vec<Val> = doms.iter().map(|d| d[0].clone()).collect();
    let mut out = vec![base.clone()];
    for i in 0..doms.len() {
        for v in &doms[i][1..] {
            let mut q = base.clone();
            q[i] = v.clone();
            out.push(q);
        }
    }
    'done: for i in 0..doms.len() {
        for j in i + 1..doms.len() {
            for v in &doms[i][1..] {
                for w in &doms[j][1..] {
                    if out.len() >= limit {
                        break 'done;
                    }
                    let mut q = base.clone();
                    q[i] = v.clone();
                    q[j] = w.clone();
                    out.push(q);
                }
            }
        }
    }
    out
}

/// Values of `t`; `k` makes values at different positions differ, `fuel` bounds the nesting of
/// recursive types.
pub fn values(t: &'static Ty, k: u64, fuel: u32, limit: usize) -> Vec<Val> {
    if fuel == 0 {
        return vec![];
    }
    let sub = (limit / 4).clamp(2, 40);
    let mut out: Vec<Val> = match &t.kind {
        Kind::Leaf => {
            let mut v = (t.gens)(k, 1);
            for x in edges(t) {
                if !v.contains(&x) {
                    v.push(x)
                }
            }
            v
        }
        Kind::Struct(f) => {
            let doms: Vec<_> =
                f.iter().enumerate().map(|(i, x)| values(x.1(), k * 10 + i as u64, fuel - 1, sub)).collect();
            combos(&doms, limit).into_iter().map(Val::Struct).collect()
        }
        Kind::Enum(vs) => {
            let each = (limit / vs.len().max(1)).max(2);
            let mut out = vec![];
            for (vi, v) in vs.iter().enumerate() {
                let doms: Vec<_> =
                    v.1.iter().enumerate().map(|(i, x)| values(x.1(), k * 10 + i as u64, fuel - 1, sub)).collect();
                out.extend(combos(&doms, each).into_iter().map(|f| Val::Enum(vi, f)));
            }
            // one of each variant first
            let mut firsts: Vec<Val> = vec![];
            let mut rest = vec![];
            for v in out {
                let Val::Enum(i, _) = &v else { unreachable!() };
                if firsts.iter().any(|f| matches!(f, Val::Enum(j, _) if j == i)) { rest.push(v) } else { firsts.push(v) }
            }
            firsts.extend(rest);
            firsts
        }
        Kind::Option(i) => {
            let mut out = vec![];
            out.extend(values(i(), k, fuel - 1, limit).into_iter().map(|v| Val::Some(Box::new(v))));
            out.insert(out.len().min(1), Val::None);
            out
        }
        Kind::List(i) => {
            let mut out = vec![];
            for n in [2usize, 0, 1, 3] {
                let doms: Vec<_> = (0..n)
                    .map(|j| {
                        let mut d = values(i(), k * 10 + j as u64, fuel - 1, sub);
                        d.truncate(if n > 1 { 3 } else { 40 });
                        d
                    })
                    .collect();
                out.extend(combos(&doms, limit / 3).into_iter().map(Val::List));
            }
            out
        }
        Kind::Array(i, n) => {
            let doms: Vec<_> = (0..*n).map(|j| values(i(), k * 10 + j as u64, fuel - 1, sub)).collect();
            combos(&doms, limit).into_iter().map(Val::List).collect()
        }
        Kind::Pointer(i) => values(i(), k, fuel - 1, limit),
        Kind::Map(kt, vt) => {
            let mut keys = values(kt(), k, fuel - 1, sub);
            keys.truncate(4);
            let mut vals = values(vt(), k, fuel - 1, sub);
            vals.truncate(3);
            let mut maps: Vec<BTreeMap<Val, Val>> = vec![BTreeMap::new()];
            for key in &keys {
                let mut more = vec![];
                for m in &maps {
                    for v in &vals {
                        let mut m2 = m.clone();
                        m2.insert(key.clone(), v.clone());
                        more.push(m2);
                    }
                }
                maps.extend(more);
            }
            // a full one first
            maps.reverse();
            maps.into_iter().map(Val::Map).collect()
        }
    };
    out.truncate(limit.max(1));
    out
}

/// the sizes around which representations and buffers change
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (4..=24).collect();
    for p in 5..=16 {
        let p = 1usize << p;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([26, 27, 40, 41, 48, 49, 50, 51, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001]);
    v.sort();
    v.retain(|n| *n <= max);
    v
}
fn small(t: TyFn, k: u64) -> Option<Val> {
    let t = t();
    gens_ty(t, k, 1, 4).into_iter().next()
}
/// all characters different from their neighbours and of every width, or all narrow ones
pub fn text(n: usize, wide: bool) -> String {
    let cs: Vec<char> = if wide { "aé€😀\u{10ffff}zß".chars().collect() } else { ('a'..='z').collect() };
    (0..n).map(|i| cs[(i + i / cs.len()) % cs.len()]).collect()
}
/// Values of `t` with one part grown to `n`: each string to n characters, each list to n elements,
/// each map to n entries; everything else is small.
pub fn sized(t: &'static Ty, n: usize, (strings, many): (bool, bool), fuel: u32) -> Vec<Val> {
    if fuel == 0 {
        return vec![];
    }
    let one_of = |fs: &[(&'static str, TyFn)]| -> Vec<Vec<Val>> {
        let Some(base) = fs.iter().enumerate().map(|(i, x)| small(x.1, i as u64 + 1)).collect::<Option<Vec<Val>>>() else { return vec![] };
        let mut out = vec![];
        for (i, x) in fs.iter().enumerate() {
            for v in sized(x.1(), n, (strings, many), fuel - 1) {
                let mut b = base.clone();
                b[i] = v;
                out.push(b);
            }
        }
        out
    };
    let mut out = vec![];
    match &t.kind {
        Kind::Leaf => {
            if strings && matches!((t.gens)(1, 1).first(), Some(Val::S(_))) {
                out.push(Val::S(text(n, false)));
                out.push(Val::S(text(n, true)));
            }
        }
        Kind::Struct(f) => out.extend(one_of(f).into_iter().map(Val::Struct)),
        Kind::Enum(vs) => {
            for (i, v) in vs.iter().enumerate() {
                out.extend(one_of(&v.1).into_iter().map(|f| Val::Enum(i, f)));
            }
        }
        Kind::Option(i) => out.extend(sized(i(), n, (strings, many), fuel - 1).into_iter().map(|v| Val::Some(Box::new(v)))),
        Kind::Pointer(i) => out.extend(sized(i(), n, (strings, many), fuel - 1)),
        Kind::List(i) => {
            let all: Vec<Val> = (0..if many { n as u64 } else { 0 }).filter_map(|k| small(*i, k)).collect();
            if many && all.len() == n {
                out.push(Val::List(all));
            }
            // the grown one last
            for v in sized(i(), n, (strings, many), fuel - 1) {
                out.push(Val::List(small(*i, 1).into_iter().chain([v]).collect()));
            }
        }
        Kind::Map(kt, vt) => {
            let all: Option<BTreeMap<Val, Val>> = (0..if many { n as u64 } else { 0 }).map(|k| Some((small(*kt, k)?, small(*vt, k)?))).collect();
            out.extend(all.filter(|m| many && m.len() == n).map(Val::Map));
            if let (Some(a), Some(b), Some(c)) = (small(*kt, 1), small(*vt, 1), small(*kt, 2)) {
                for v in sized(vt(), n, (strings, many), fuel - 1) {
                    out.push(Val::Map(BTreeMap::from([(a.clone(), b.clone()), (c.clone(), v)])));
                }
                for k in sized(kt(), n, (strings, many), fuel - 1) {
                    out.push(Val::Map(BTreeMap::from([(a.clone(), b.clone()), (k, b.clone())])));
                }
            }
        }
        Kind::Array(i, len) => {
            for j in 0..*len {
                let Some(base) = (0..*len as u64).map(|k| small(*i, k)).collect::<Option<Vec<Val>>>() else { break };
                for v in sized(i(), n, (strings, many), fuel - 1) {
                    let mut b = base.clone();
                    b[j] = v;
                    out.push(Val::List(b));
                }
            }
        }
    }
    out
}
/// A value of `t` in which a `t` is nested `d` deep, if it can be.
pub fn deep(t: &'static Ty, d: usize) -> Option<Val> {
    fn make(root: &'static Ty, t: &'static Ty, d: usize, k: u64) -> Option<Val> {
        match &t.kind {
            Kind::Struct(f) => {
                // the root again only in the first field that leads there
                let at = f.iter().position(|x| x.1().closure().contains(&root));
                let f = f.iter().enumerate().map(|(i, x)| if Some(i) == at { make(root, x.1(), d, k) } else { small(x.1, k) }).collect::<Option<Vec<Val>>>()?;
                Some(Val::Struct(f))
            }
            Kind::List(i) if d == 0 => (i() == root || i().closure().contains(&root)).then(|| Val::List(vec![])),
            Kind::List(i) => Some(Val::List(vec![make(root, i(), d - 1, k + 1)?])),
            Kind::Option(_) if d == 0 => Some(Val::None),
            Kind::Option(i) => Some(Val::Some(Box::new(make(root, i(), d - 1, k + 1)?))),
            Kind::Map(..) if d == 0 => Some(Val::Map(BTreeMap::new())),
            Kind::Map(kt, vt) => Some(Val::Map(BTreeMap::from([(small(*kt, k)?, make(root, vt(), d - 1, k + 1)?)]))),
            _ => None,
        }
    }
    if !t.children().iter().any(|c| c().closure().contains(&t)) {
        return None;
    }
    make(t, t, d, 1)
}
/// all grown values of `t` up to the given sizes of strings, of containers, and depth
pub fn large(t: &'static Ty, strings: usize, many: usize, depth: usize) -> Vec<(usize, Val)> {
    let mut out = vec![];
    for n in sizes(strings.max(many)) {
        out.extend(sized(t, n, (n <= strings, n <= many), 5).into_iter().map(|v| (n, v)));
    }
    for n in sizes(depth) {
        out.extend(deep(t, n).map(|v| (n, v)));
    }
    out
}
/// for messages
pub fn show(v: &Val) -> String {
    let s = format!("{v:?}");
    if s.chars().count() > 300 { s.chars().take(300).chain("..".chars()).collect() } else { s }
}
