//! Compares what reflection shows of a value with the value itself.
use crate::native::*;
use facet_core::{Def, FieldError};
use facet_reflect::{Peek, PeekList, PeekMap, peek_enum, peek_enum_repr, peek_enum_variants};
use std::cell::RefCell;
use std::collections::HashSet;

macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

thread_local! {
    /// everything read of the value, where it is, and what it is
    static SEEN: RefCell<Vec<(Peek<'static>, usize, &'static Ty)>> = const { RefCell::new(vec![]) };
}

/// As `check`; afterwards, parts have the same identity exactly when they are the same place seen as the same type.
pub fn check_all(p: Peek<'_>, t: &'static Ty, v: &Val, tab: &[&'static Ty]) -> Result<u64, String> {
    crate::untracked(|| SEEN.with_borrow_mut(|s| s.clear()));
    let mut n = check(p, t, v, tab, "value")?;
    let r = crate::untracked(|| SEEN.with_borrow_mut(|s| -> Result<u64, String> {
        let mut ids = HashSet::new();
        let mut places = HashSet::new();
        for (i, (a, pa, ta)) in s.iter().enumerate() {
            ids.insert(a.id());
            places.insert((*pa, (ta.shape)() as *const _ as usize));
            let same_text = |b: &Peek| a.id().to_string() == b.id().to_string() && format!("{:?}", a.id()) == format!("{:?}", b.id());
            for (j, (b, pb, tb)) in s.iter().enumerate().take(400) {
                let same = pa == pb && ta == tb;
                want!((a.id() == b.id()) == same, "identity of parts {i} and {j} ({} at {pa:#x}, {} at {pb:#x}) equal: {}", ta.name, tb.name, a.id() == b.id());
                want!(a.ptr_eq(b) == (pa == pb), "ptr_eq of parts {i} and {j} is {}", a.ptr_eq(b));
                if i < 12 && j < 12 {
                    want!(!same || same_text(b), "the same part is printed as {} and {}", a.id(), b.id());
                    want!(pa == pb || !same_text(b), "parts at {pa:#x} and {pb:#x} are both printed as {}", a.id());
                }
                n += 1;
            }
        }
        want!(ids.len() == places.len(), "{} identities for {} parts", ids.len(), places.len());
        Ok(n)
    }));
    r.map_err(|e| e.clone())
}

/// the parts seen are gone
pub fn forget() {
    SEEN.with_borrow_mut(|s| s.clear());
}

/// Reads everything there is to read through `p`, which refers to the value `v` of type `t`, and
/// returns the number of readings compared. `tab`: other types to try.
pub fn check(p: Peek<'_>, t: &'static Ty, v: &Val, tab: &[&'static Ty], at: &str) -> Result<u64, String> {
    let mut n = 0;
    let shape = (t.shape)();
    want!(p.shape() == shape, "{at}: has the shape of {} instead of {}", p.shape(), t.name);
    match (t.get)(&p) {
        Some(x) => want!(&x == v, "{at}: typed read gives {x:?} instead of {v:?}"),
        None => return Err(format!("{at}: cannot be read as {}", t.name)),
    }
    for o in tab {
        if *o != t {
            want!((o.get)(&p).is_none(), "{at}: of type {} was read as {}", t.name, o.name);
            n += 1;
        }
    }
    let whole = p.data().as_byte_ptr() as usize;
    crate::untracked(|| SEEN.with_borrow_mut(|s| s.push((unsafe { std::mem::transmute::<Peek<'_>, Peek<'static>>(p) }, whole, t))));
    want!(peek_enum(shape).is_some() == t.is_enum() && peek_enum_repr(shape).is_some() == t.is_enum() && peek_enum_variants(shape).is_some() == t.is_enum(), "{at}: peek_enum of {} is {:?}", t.name, peek_enum(shape));
    let unit = t.name == "()";
    let kinds = [
        p.into_struct().is_ok(),
        p.into_enum().is_ok(),
        p.into_list().is_ok(),
        p.into_map().is_ok(),
        p.into_option().is_ok(),
        p.into_smart_pointer().is_ok(),
    ];
    let exp = [
        t.is_struct(),
        t.is_enum(),
        matches!(t.kind, Kind::List(_)),
        matches!(t.kind, Kind::Map(..)),
        matches!(t.kind, Kind::Option(_)),
        matches!(t.kind, Kind::Pointer(_)),
    ];
    if !unit {
        want!(kinds == exp, "{at}: kinds it can be read as are {kinds:?}, expected {exp:?} (struct, enum, list, map, option, pointer)");
    }
    n += 7;
    match (&t.kind, v) {
        (Kind::Leaf, _) => {}
        (Kind::Struct(f), Val::Struct(vs)) => {
            let s = p.into_struct().unwrap();
            want!(s.def().fields.iter().map(|f| f.name).eq(f.iter().map(|f| f.0)), "{at}: definition has fields {:?}", s.def().fields);
            want!(s.field_count() == f.len(), "{at}: {} fields instead of {}", s.field_count(), f.len());
            let mut it = s.fields();
            for (i, (name, ty)) in f.iter().enumerate() {
                let at = format!("{at}.{name}");
                let a = s.field(i).map_err(|e| format!("{at}: field({i}): {e}"))?;
                n += check(a, ty(), &vs[i], tab, &at)?;
                let b = s.field_by_name(name).map_err(|e| format!("{at}: field_by_name: {e}"))?;
                want!(b.id() == a.id(), "{at}: by name and by index differ");
                let Some((fd, c)) = it.next() else { return Err(format!("{at}: iteration ended early")) };
                want!(fd.name == *name && c.id() == a.id(), "{at}: iteration gives field {}", fd.name);
                n += 2;
            }
            want!(it.next().is_none(), "{at}: iteration goes on after the last field");
            for i in [f.len(), f.len() + 1, 64, usize::MAX] {
                want!(i < f.len() || matches!(s.field(i), Err(FieldError::IndexOutOfBounds)), "{at}: field({i}) exists");
            }
            for name in bad_names(f) {
                want!(matches!(s.field_by_name(&name), Err(FieldError::NoSuchField)), "{at}: field {name:?} exists");
                n += 1;
            }
        }
        (Kind::Enum(vars), Val::Enum(vi, vs)) => {
            let e = p.into_enum().unwrap();
            let (vname, f) = &vars[*vi];
            want!(e.variant_count() == vars.len() && e.variants().len() == vars.len(), "{at}: {} variants", e.variant_count());
            for (i, x) in vars.iter().enumerate() {
                want!(e.variant_name(i) == Some(x.0), "{at}: variant_name({i}) is {:?}", e.variant_name(i));
            }
            for i in [vars.len(), usize::MAX] {
                want!(e.variant_name(i).is_none(), "{at}: variant_name({i}) exists");
            }
            want!(e.variant_index() == *vi, "{at}: variant index {} instead of {vi}", e.variant_index());
            want!(e.variant_name_active() == *vname, "{at}: variant {} instead of {vname}", e.variant_name_active());
            want!(e.active_variant().name == *vname, "{at}: variant {} instead of {vname}", e.active_variant().name);
            want!(e.discriminant() as i128 == t.discs[*vi], "{at}: discriminant {} instead of {}", e.discriminant(), t.discs[*vi]);
            want!(Some(e.repr()) == peek_enum_repr(shape) && e.def().repr == e.repr(), "{at}: representations differ: {:?} {:?}", e.repr(), peek_enum_repr(shape));
            for vs in [e.variants(), e.def().variants, peek_enum(shape).unwrap().variants, peek_enum_variants(shape).unwrap()] {
                want!(vs.iter().map(|v| v.name).eq(vars.iter().map(|v| v.0)), "{at}: variants {:?}", vs.iter().map(|v| v.name).collect::<Vec<_>>());
            }
            let mut it = e.fields();
            for (i, (name, ty)) in f.iter().enumerate() {
                let at = format!("{at}::{vname}.{name}");
                let a = e.field(i).ok_or(format!("{at}: field({i}) is missing"))?;
                n += check(a, ty(), &vs[i], tab, &at)?;
                want!(e.field_index(name) == Some(i), "{at}: field_index is {:?}", e.field_index(name));
                let b = e.field_by_name(name).ok_or(format!("{at}: field_by_name is missing"))?;
                want!(b.id() == a.id(), "{at}: by name and by index differ");
                let Some((fd, c)) = it.next() else { return Err(format!("{at}: iteration ended early")) };
                want!(fd.name == *name && c.id() == a.id(), "{at}: iteration gives field {}", fd.name);
                n += 3;
            }
            want!(it.next().is_none(), "{at}: iteration goes on after the last field");
            for i in [f.len(), f.len() + 1, usize::MAX] {
                want!(e.field(i).is_none(), "{at}: field({i}) exists");
            }
            for name in bad_names(f) {
                want!(e.field_by_name(&name).is_none() && e.field_index(&name).is_none(), "{at}: field {name:?} exists");
                n += 1;
            }
            n += 5;
        }
        (Kind::List(ty), Val::List(vs)) => {
            let l = p.into_list().unwrap();
            let l = if vs.len() % 2 == 0 { l } else { PeekList::new(p, l.def()) };
            want!(l.def().t() == (ty().shape)(), "{at}: elements are described as {}", l.def().t());
            want!(l.len() == vs.len() && l.is_empty() == vs.is_empty(), "{at}: length {} instead of {}", l.len(), vs.len());
            let mut it = l.iter();
            for (i, v) in vs.iter().enumerate() {
                let at = format!("{at}[{i}]");
                let a = l.get(i).ok_or(format!("{at}: missing"))?;
                n += check(a, ty(), v, tab, &at)?;
                want!(it.len() == vs.len() - i && it.size_hint() == (vs.len() - i, Some(vs.len() - i)), "{at}: iterator reports length {}", it.len());
                let Some(b) = it.next() else { return Err(format!("{at}: iteration ended early")) };
                want!(b.shape() == a.shape() && (ty().get)(&b).as_ref() == Some(v), "{at}: iteration gives something else");
                n += 2;
            }
            want!(it.len() == 0 && it.next().is_none() && it.next().is_none(), "{at}: iteration goes on after the end");
            for i in [vs.len(), vs.len() + 1, usize::MAX / 2, usize::MAX] {
                want!(l.get(i).is_none(), "{at}: element {i} exists");
            }
            want!((&l).into_iter().count() == vs.len(), "{at}: into_iter counts differently");
            n += 5;
        }
        (Kind::Map(kt, vt), Val::Map(m)) => {
            let pm = p.into_map().unwrap();
            let pm = if m.len() % 2 == 0 { pm } else { PeekMap::new(p, pm.def()) };
            want!(pm.def().k == (kt().shape)() && pm.def().v == (vt().shape)(), "{at}: entries are described as {} to {}", pm.def().k, pm.def().v);
            want!(pm.len() == m.len() && pm.is_empty() == m.is_empty(), "{at}: length {} instead of {}", pm.len(), m.len());
            for (k, v) in m {
                let at = format!("{at}[{k:?}]");
                let (c, got) = (kt().lookup)(&pm, k);
                want!(c, "{at}: contains_key is false");
                let got = got.ok_or(format!("{at}: get gives nothing"))?;
                n += check(got, vt(), v, tab, &at)?;
            }
            let absent: Vec<Val> = crate::domain::values(kt(), 77, 3, 8).into_iter().filter(|k| !m.contains_key(k)).collect();
            for k in absent {
                let (c, got) = (kt().lookup)(&pm, &k);
                want!(!c && got.is_none(), "{at}: the absent key {k:?} is found");
                n += 1;
            }
            for o in tab {
                if *o != kt() {
                    for k in (o.gens)(0, 2) {
                        let (c, got) = (o.lookup)(&pm, &k);
                        want!(!c && got.is_none(), "{at}: a key of type {} is found", o.name);
                        n += 1;
                    }
                }
            }
            for abandoned in 0..=m.len() {
                // iterators are dropped half way
                let mut it = pm.iter();
                for _ in 0..abandoned {
                    want!(it.next().is_some(), "{at}: iteration ended early");
                }
            }
            let mut seen = std::collections::BTreeMap::new();
            let mut order = vec![];
            for (k, v) in &pm {
                let Some(kv) = (kt().get)(&k) else { return Err(format!("{at}: key of a wrong type")) };
                n += check(k, kt(), &kv, tab, &format!("{at}<key>"))?;
                let Some(exp) = m.get(&kv) else { return Err(format!("{at}: iteration gives the absent key {kv:?}")) };
                n += check(v, vt(), exp, tab, &format!("{at}<iter {kv:?}>"))?;
                order.push(kv.clone());
                want!(seen.insert(kv, ()).is_none(), "{at}: a key comes twice");
            }
            want!(seen.len() == m.len(), "{at}: iteration gives {} entries of {}", seen.len(), m.len());
            if t.name.starts_with("BTreeMap") {
                want!(order.windows(2).all(|w| w[0] < w[1]), "{at}: a BTreeMap is iterated out of order");
            }
        }
        (Kind::Option(i), v) => {
            let o = p.into_option().unwrap();
            want!(o.def().t() == (i().shape)(), "{at}: content is described as {}", o.def().t());
            want!(unsafe { (o.vtable().is_some_fn)(p.data()) } == o.is_some(), "{at}: is_some differs");
            match v {
                Val::None => want!(o.is_none() && !o.is_some() && o.value().is_none(), "{at}: is not none"),
                Val::Some(x) => {
                    want!(o.is_some() && !o.is_none(), "{at}: is none");
                    let a = o.value().ok_or(format!("{at}: no value"))?;
                    n += check(a, i(), x, tab, &format!("{at}?"))?;
                }
                _ => unreachable!(),
            }
            n += 3;
        }
        (Kind::Pointer(i), v) => {
            let sp = p.into_smart_pointer().unwrap();
            let f = sp.def().vtable.borrow_fn.ok_or(format!("{at}: cannot be borrowed"))?;
            let target = unsafe { f(p.data()) };
            let pointee = sp.def().pointee.ok_or(format!("{at}: no pointee"))?;
            n += check(unsafe { Peek::unchecked_new(target, pointee) }, i(), v, tab, &format!("*{at}"))?;
        }
        (Kind::Array(i, len), Val::List(vs)) => {
            let Def::Array(d) = p.shape().def else { return Err(format!("{at}: not an array")) };
            want!(d.n == *len, "{at}: {} elements instead of {len}", d.n);
            for (j, v) in vs.iter().enumerate() {
                let q = unsafe { (d.vtable.get_item_ptr)(p.data(), j) };
                n += check(unsafe { Peek::unchecked_new(q, d.t()) }, i(), v, tab, &format!("{at}[{j}]"))?;
            }
        }
        (_, v) => unreachable!("{} {v:?}", t.name),
    }
    Ok(n)
}

/// names that look like those of the fields
fn bad_names(f: &[(&'static str, TyFn)]) -> Vec<String> {
    let mut out: Vec<String> = vec!["".into(), "nope".into(), "0".into(), "_0".into(), "7".into()];
    for (n, _) in f {
        out.push(format!("{n}x"));
        out.push(n[..n.len() - 1].to_string());
        out.push(n.to_uppercase());
        out.push(format!(" {n}"));
    }
    out.retain(|x| !f.iter().any(|(n, _)| n == x));
    out
}
