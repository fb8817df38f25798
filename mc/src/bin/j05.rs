use mc::fmt::*;
use mc::json::{self, Doc};
use mc::jsongen::*;
use mc::native::*;
use mc::universe::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "J05",
        level: "model_checking",
        rule: "for each struct type: all sequences of members to a length, over every field name, given name and foreign name, each with fitting values and with values of other kinds (for foreign names: every JSON kind, nested and with brackets, quotes, escapes and known names inside), in three spellings, at the root and in every place of a struct within lists, options and other structs; of every struct type (to 64 fields) each field left out, alone, repeated, misnamed and of a wrong kind; the result must be what the type-directed reference says: the value, or refused",
        assumptions: "when a member occurs several times the last one counts; where both the field and its type declare a default no expectation is stated",
        run,
    });
}
fn nasty() -> Vec<Doc> {
    let st = |s: &str| Doc::Str(s.into());
    let num = |s: &str| Doc::Num(s.into());
    vec![
        Doc::Null,
        Doc::Bool(false),
        num("-1.5e+3"),
        st("}],\":{[\\\"\u{8}é\u{1f600}"),
        st(""),
        Doc::Arr(vec![]),
        Doc::Obj(vec![]),
        Doc::Arr(vec![Doc::Obj(vec![("a".into(), Doc::Arr(vec![num("1"), Doc::Null]))]), st("]"), Doc::Arr(vec![Doc::Arr(vec![])])]),
        Doc::Obj(vec![("a".into(), num("9")), ("b".into(), Doc::Obj(vec![("c".into(), st("}")), ("zz".into(), Doc::Bool(true))])), ("".into(), Doc::Arr(vec![Doc::Obj(vec![])]))]),
    ]
}
/// what a field may be given: fitting, fitting otherwise, and not
fn offers(t: &'static Ty) -> Vec<Doc> {
    let mut out: Vec<Doc> = vec![];
    for (i, v) in domain::values(t, 3, 5, 9).into_iter().enumerate() {
        if i % 4 == 0 {
            out.extend(json::document(t, &v, attrs));
        }
    }
    out.truncate(3);
    for d in nasty() {
        let fits = json::denote(t, &d, attrs).is_some();
        if fits && !out.contains(&d) || !fits && out.iter().all(|o| json::denote(t, o, attrs).is_some()) {
            out.push(d);
        }
    }
    out
}
/// each field left out, alone, twice, of a wrong kind, first, last and preceded by something unknown
fn each_field(ctx: &mut Ctx) {
    for t in both_ways() {
        let Kind::Struct(fs) = &t.kind else { continue };
        let a = attrs(t);
        let full: Vec<(String, Doc)> = fs.iter().map(|f| (a.name(f.0).to_string(), offers(f.1()).remove(0))).collect();
        for i in 0..fs.len() {
            ctx.case(&format!("each field {}", t.name), &|| fs[i].0.into(), || {
                let (mut n, mut acc) = (0, 0);
                let mut go = |ms: Vec<(String, Doc)>| -> Result<(), String> {
                    let d = Doc::Obj(ms);
                    for style in 0..3 {
                        acc += agree(t, &render(&d, style), Some(&d), false)? as u64;
                        n += 1;
                    }
                    Ok(())
                };
                let mut ms = full.clone();
                let this = ms.remove(i);
                go(ms.clone())?;
                go(vec![this.clone()])?;
                for o in offers(fs[i].1()) {
                    let mut one = ms.clone();
                    one.insert(0, (this.0.clone(), o.clone()));
                    go(one)?;
                    let mut one = ms.clone();
                    one.push((this.0.clone(), o.clone()));
                    go(one.clone())?;
                    one.push(this.clone());
                    go(one)?;
                    let mut one = full.clone();
                    one.push((this.0.clone(), o.clone()));
                    go(one)?;
                }
                for name in ["zz", "", &format!("{}x", this.0), &this.0[..this.0.len() - 1], &this.0.to_uppercase()] {
                    if full.iter().any(|f| f.0 == name) || !this.0.is_ascii() {
                        continue;
                    }
                    let mut one = full.clone();
                    one.insert(i, (name.into(), nasty()[i % 9].clone()));
                    go(one)?;
                    let mut one = ms.clone();
                    one.insert(i, (name.into(), this.1.clone()));
                    go(one)?;
                }
                Ok(CaseOut { class: 1 + acc.min(1), states: n, transitions: n })
            });
        }
    }
}
fn run(ctx: &mut Ctx) {
    nested(ctx);
    each_field(ctx);
    let types: [(&'static Ty, usize, usize); 17] = [
        (One::ty(), 4, 5), (Two::ty(), 3, 4), (Ren::ty(), 3, 4), (Def::ty(), 3, 4), (Deny::ty(), 4, 5), (CDef::ty(), 3, 4), (CDeny::ty(), 3, 4),
        (Nest::ty(), 2, 3), (ListS::ty(), 3, 4), (S2::ty(), 3, 4), (SD::ty(), 3, 3), (N2::ty(), 2, 3), (Deep::ty(), 2, 3), (Tup::ty(), 3, 4), (UnitLike::ty(), 3, 4), (<(u8, String)>::ty(), 3, 4), (Ints::ty(), 2, 2),
    ];
    let nasty = nasty();
    let nests = nests(ctx.pick(5, 7));
    for (t, q, th) in types {
        let Kind::Struct(fs) = &t.kind else { unreachable!() };
        let a = attrs(t);
        let mut members: Vec<(String, Doc)> = vec![];
        for f in fs {
            for d in offers(f.1()) {
                members.push((f.0.into(), d));
            }
        }
        for (f, r) in &a.renames {
            let f = fs.iter().find(|x| x.0 == *f).unwrap();
            for d in offers(f.1()).into_iter().take(3) {
                if !members.contains(&(r.to_string(), d.clone())) {
                    members.push((r.to_string(), d));
                }
            }
        }
        for (i, d) in nasty.iter().enumerate() {
            members.push((["zz", "", "A", "a\u{301}", "__a", "\"", "\u{1f600}", "c}", "0x"][i].into(), d.clone()));
        }
        let len = ctx.pick(q, th);
        let n = members.len();
        // everything a complete value needs, besides the sequence
        let full: Vec<(String, Doc)> = fs.iter().map(|f| (a.name(f.0).to_string(), offers(f.1()).remove(0))).collect();
        for first in 0..=n {
            for style in 0..3u8 {
                ctx.case(&format!("members {}", t.name), &|| format!("first {first} of {n}, spelling {style}"), || {
                    let (mut count, mut acc) = (0, 0);
                    let mut go = |ms: Vec<(String, Doc)>| -> Result<(), String> {
                        let d = Doc::Obj(ms);
                        acc += agree(t, &render(&d, style), Some(&d), false)? as u64;
                        count += 1;
                        Ok(())
                    };
                    if first == n {
                        go(vec![])?;
                    } else {
                        // shorter ones in all spellings, the longest in one each
                        for l in 1..=len {
                            for i in 0..n.pow(l as u32 - 1) {
                                if l == len && l > 2 && (i + first) % 3 != style as usize {
                                    continue;
                                }
                                let mut seq = vec![members[first].clone()];
                                let mut i = i;
                                for _ in 1..l {
                                    seq.push(members[i % n].clone());
                                    i /= n;
                                }
                                if l <= 2 {
                                    // before, after, and in the middle of the complete ones
                                    for at in 0..=full.len() {
                                        let mut s = full[..at].to_vec();
                                        s.extend(seq.clone());
                                        s.extend(full[at..].to_vec());
                                        go(s)?;
                                    }
                                }
                                go(seq)?;
                            }
                        }
                    }
                    Ok(CaseOut { class: 1 + (acc as u64).min(1), states: count, transitions: count })
                });
            }
        }
        // skipping, and being refused, at every nesting
        for style in 0..3 {
            ctx.case(&format!("nested {}", t.name), &|| format!("spelling {style}"), || {
                let (mut count, mut acc) = (0, 0);
                for d in &nests {
                    for at in [0, full.len() / 2, full.len()] {
                        for name in ["zz", full.last().map(|f| f.0.as_str()).unwrap_or("")] {
                            let mut ms = full.clone();
                            ms.insert(at, (name.into(), d.clone()));
                            let d = Doc::Obj(ms);
                            acc += agree(t, &render(&d, style), Some(&d), false)? as u64;
                            count += 1;
                        }
                    }
                }
                Ok(CaseOut { class: 1 + acc.min(1), states: count, transitions: count })
            });
        }
        // all orders of the fields
        let k = full.len().min(6);
        let mut perm: Vec<usize> = (0..k).collect();
        let mut perms = vec![];
        permute(&mut perm, 0, &mut perms);
        ctx.case(&format!("orders {}", t.name), &|| "all".into(), || {
            for p in &perms {
                for style in 0..3 {
                    for at in 0..=k {
                        let mut ms: Vec<(String, Doc)> = p.iter().map(|i| full[*i].clone()).collect();
                        ms.extend(full[k..].to_vec());
                        if at < k {
                            // one left out
                            ms.remove(at);
                        }
                        let d = Doc::Obj(ms);
                        agree(t, &render(&d, style), Some(&d), true)?;
                    }
                }
            }
            Ok(CaseOut { class: 5, states: perms.len() as u64 * 3 * (k as u64 + 1), transitions: 0 })
        });
    }
}
/// every place of a struct within a complete document for the type
fn places(t: &'static Ty, full: &Doc, out: &mut Vec<(&'static Ty, String, Vec<usize>)>, path: &mut Vec<usize>, label: &str) {
    if path.len() > 6 {
        return;
    }
    match (&t.kind, full) {
        (Kind::Struct(fs), Doc::Obj(ms)) => {
            out.push((t, label.into(), path.clone()));
            let a = attrs(t);
            for (i, (name, d)) in ms.iter().enumerate() {
                if let Some(f) = fs.iter().find(|f| a.name(f.0) == name) {
                    path.push(i);
                    places(f.1(), d, out, path, &format!("{label}.{}", f.0));
                    path.pop();
                }
            }
        }
        (Kind::List(e), Doc::Arr(v)) => {
            for (i, d) in v.iter().enumerate() {
                path.push(i);
                places(e(), d, out, path, &format!("{label}[{i}]"));
                path.pop();
            }
        }
        (Kind::Option(e), d) => places(e(), d, out, path, label),
        _ => {}
    }
}
fn put(d: &Doc, path: &[usize], new: &Doc) -> Doc {
    let Some((i, rest)) = path.split_first() else { return new.clone() };
    let mut d = d.clone();
    match &mut d {
        Doc::Obj(m) => m[*i].1 = put(&m[*i].1, rest, new),
        Doc::Arr(v) => v[*i] = put(&v[*i], rest, new),
        _ => unreachable!(),
    }
    d
}
/// a document with something in every place
fn complete(t: &'static Ty, depth: usize) -> Doc {
    match &t.kind {
        Kind::Struct(fs) => {
            let a = attrs(t);
            Doc::Obj(fs.iter().map(|f| (a.name(f.0).to_string(), complete(f.1(), depth))).collect())
        }
        Kind::List(_) if depth == 0 => Doc::Arr(vec![]),
        Kind::List(e) => Doc::Arr(vec![complete(e(), depth - 1), complete(e(), depth - 1)]),
        Kind::Option(e) => complete(e(), depth),
        _ => offers(t).remove(0),
    }
}
fn nested(ctx: &mut Ctx) {
    let nasty = nasty();
    let types: [&'static Ty; 15] = [
        Nest::ty(), Wrap::ty(), Wraps::ty(), Wrap1::ty(), <Vec<Deny>>::ty(), <Vec<Def>>::ty(), <Vec<Option<CDef>>>::ty(), <Option<CDeny>>::ty(), <Vec<Vec<CDeny>>>::ty(), <Option<Vec<Ren>>>::ty(),
        <Vec<(u8, Wrap1)>>::ty(), Chain::ty(), N2::ty(), Deep::ty(), <Vec<Wrap>>::ty(),
    ];
    for t in types {
        let full = complete(t, 2);
        let mut ps = vec![];
        places(t, &full, &mut ps, &mut vec![], "");
        for (s, label, path) in ps {
            let Kind::Struct(fs) = &s.kind else { unreachable!() };
            let a = attrs(s);
            let mut members: Vec<(String, Doc)> = vec![];
            for f in fs {
                let o = offers(f.1());
                let bad = o.iter().find(|d| json::denote(f.1(), d, attrs).is_none()).cloned();
                members.extend([Some(o[0].clone()), bad].into_iter().flatten().map(|d| (a.name(f.0).to_string(), d)));
                if a.name(f.0) != f.0 {
                    members.push((f.0.into(), o[0].clone()));
                }
            }
            members.extend([("zz".to_string(), nasty[0].clone()), ("zz".into(), nasty[8].clone()), ("A".into(), nasty[3].clone())]);
            // names from elsewhere in the document
            for name in ["p", "x", "y", "d", "x x"] {
                if !members.iter().any(|m| m.0 == name) {
                    members.push((name.into(), Doc::Num("1".into())));
                }
            }
            let whole: Vec<(String, Doc)> = fs.iter().map(|f| (a.name(f.0).to_string(), offers(f.1()).remove(0))).collect();
            let n = members.len();
            let len = ctx.pick(2, 3);
            for style in 0..3u8 {
                ctx.case(&format!("within {}", t.name), &|| format!("{} at {label}, spelling {style}", s.name), || {
                    let (mut count, mut acc) = (0, 0);
                    let mut go = |ms: Vec<(String, Doc)>| -> Result<(), String> {
                        let d = put(&full, &path, &Doc::Obj(ms));
                        acc += agree(t, &render(&d, style), Some(&d), false)? as u64;
                        count += 1;
                        Ok(())
                    };
                    for l in 0..=len {
                        for i in 0..n.pow(l as u32) {
                            let mut seq = vec![];
                            let mut i = i;
                            for _ in 0..l {
                                seq.push(members[i % n].clone());
                                i /= n;
                            }
                            for at in 0..=whole.len() {
                                if l > 1 && at != 0 && at != whole.len() {
                                    continue;
                                }
                                let mut ms = whole[..at].to_vec();
                                ms.extend(seq.clone());
                                ms.extend(whole[at..].to_vec());
                                if at < whole.len() {
                                    // and with one left out
                                    let mut less = ms.clone();
                                    less.remove(at + seq.len());
                                    go(less)?;
                                }
                                go(ms)?;
                            }
                            go(seq)?;
                        }
                    }
                    Ok(CaseOut { class: 1 + acc.min(1), states: count, transitions: count })
                });
            }
        }
    }
}
fn permute(p: &mut Vec<usize>, i: usize, out: &mut Vec<Vec<usize>>) {
    if i >= p.len() {
        out.push(p.clone());
        return;
    }
    for j in i..p.len() {
        p.swap(i, j);
        permute(p, i + 1, out);
        p.swap(i, j);
    }
}
