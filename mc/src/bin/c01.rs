use facet::Facet;
use facet_core::*;
use mc::ops::{Ops, Recorder};
use mc::*;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::hash::{BuildHasher, DefaultHasher};
use std::marker::PhantomData;
use std::mem::MaybeUninit;
use std::net::*;
use std::num::NonZero;
use std::path::{Path, PathBuf};
use camino::{Utf8Path, Utf8PathBuf};
use std::ptr::NonNull;
use std::sync::{Arc, Weak};

fn main() {
    mc::main(Check {
        id: "C01",
        level: "model_checking",
        rule: "every type of the table (each scalar, NonZero, text, path, network and collection type, options, arrays of length 0-4, 32 and 33, slices, tuples of every arity 1-12, smart pointers, derived structs and enums with every chain of traits) x every ordered pair of its values (boundary values for scalars; for sequences all prefixes; for tuples one variation per position) x every operation, compared with the trait implementation the compiler resolves for the concrete type; parse on every text of a fixed list",
        assumptions: "plain {} and {:?} formatting only (no width, precision or alternate flags); operations a shape does not offer are only required for scalars and derived types, and for containers where the elements offer them; arrays offer a bracketed display, hash maps a hash and options parsing of their content although the standard types don't: these are checked against their element operations",
        run,
    });
}

struct Facts<T> {
    name: &'static str,
    ops: Ops<T>,
    vals: fn() -> Vec<T>,
    show: fn(&T) -> String,
    /// offers everything the type implements
    full: bool,
    /// operations that must be offered (containers)
    must: &'static str,
    extra_display: Option<fn(&T) -> String>,
    extra_hash: bool,
    extra_parse: Option<fn(&str) -> Option<T>>,
}

const TEXTS: &[&str] = &[
    "", "0", "-1", "+1", "1", "255", "256", "-128", "-129", "65535", "65536", "4294967295", "4294967296",
    "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455",
    "-170141183460469231731687303715884105728", "1.5", "1e400", "-0", "nan", "inf", "1_000", " 1", "1 ", "0x10", "true",
    "false", "True", "a", "é", "ab", "\u{0}", "127.0.0.1", "127.0.0.256", "::1", "::ffff:1.2.3.4", "1.2.3.4:80",
    "[::1]:80", "1.2.3.4:99999", "/a/b", "x y", "None", "Some(1)",
];

#[repr(C)]
struct Guarded<T> {
    pre: [u8; 64],
    v: MaybeUninit<T>,
    post: [u8; 64],
}
impl<T> Guarded<T> {
    fn new() -> Self {
        let mut g = Guarded { pre: [0x5a; 64], v: MaybeUninit::uninit(), post: [0x5a; 64] };
        unsafe { std::ptr::write_bytes(g.v.as_mut_ptr() as *mut u8, 0xa5, std::mem::size_of::<T>()) };
        g
    }
    fn intact(&self) -> bool {
        self.pre == [0x5a; 64] && self.post == [0x5a; 64]
    }
}

struct Disp<'a>(&'a Shape, PtrConst<'a>, bool);
impl fmt::Display for Disp<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unsafe {
            if self.2 { (self.0.vtable.debug.unwrap())(self.1, f) } else { (self.0.vtable.display.unwrap())(self.1, f) }
        }
    }
}

impl fmt::Debug for Disp<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

/// Takes so many bytes, then fails for good
struct Limited {
    left: usize,
    got: String,
    failed: bool,
}
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed || s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got += s;
        Ok(())
    }
}
/// Formatting into writers that fail after every number of bytes passes the failure on
fn failing(d: &Disp, want: &str) -> Result<(), String> {
    for left in 0..=want.len() {
        let mut w = Limited { left, got: String::new(), failed: false };
        let r = fmt::write(&mut w, format_args!("{d}"));
        if r.is_ok() != !w.failed || (left == want.len() && r.is_err()) || !want.starts_with(&w.got) {
            return Err(format!("formatted into a writer that takes {left} bytes: {r:?}, {:?} of {want:?}", w.got));
        }
    }
    Ok(())
}

fn hash_through(shape: &Shape, p: PtrConst) -> Vec<u8> {
    let mut r = Recorder::default();
    unsafe {
        (shape.vtable.hash.unwrap())(p, PtrMut::new(&raw mut r), |this, b| {
            use std::hash::Hasher;
            this.as_mut::<Recorder>().write(b)
        })
    };
    r.0
}
fn drop_through<T: Facet>(p: *mut T) {
    match T::SHAPE.vtable.drop_in_place {
        Some(d) => unsafe {
            d(PtrMut::new(p));
        },
        None => assert!(!std::mem::needs_drop::<T>(), "checked before"),
    }
}

/// What the harness knows of a type without its values.
struct Offers {
    name: &'static str,
    shape: &'static facet::Shape,
    ops: [bool; 9],
    markers: [bool; 5],
    /// offered beyond the type's own implementations
    extra: [bool; 9],
    full: bool,
    must: &'static str,
    needs_drop: bool,
}
fn offers(ctx: &mut Ctx, f: &Offers) {
    let g = f.name;
    let vt = f.shape.vtable;
    ctx.case("offered operations", &|| g.to_string(), || {
        let offers: [(&str, bool, bool, bool); 9] = [
            ("display", vt.display.is_some(), f.ops[0], f.extra[0]),
            ("debug", vt.debug.is_some(), f.ops[1], f.extra[1]),
            ("eq", vt.eq.is_some(), f.ops[2], f.extra[2]),
            ("partial_ord", vt.partial_ord.is_some(), f.ops[3], f.extra[3]),
            ("ord", vt.ord.is_some(), f.ops[4], f.extra[4]),
            ("hash", vt.hash.is_some(), f.ops[5], f.extra[5]),
            ("default", vt.default_in_place.is_some(), f.ops[6], f.extra[6]),
            ("clone", vt.clone_into.is_some(), f.ops[7], f.extra[7]),
            ("parse", vt.parse.is_some(), f.ops[8], f.extra[8]),
        ];
        for (n, offered, implemented, extra) in offers {
            if offered && !implemented && !extra {
                return Err(format!("offers {n}, which the type does not implement"));
            }
            if !offered && implemented && (f.full || f.must.split(' ').any(|m| m == n)) {
                return Err(format!("does not offer {n}, which the type implements"));
            }
            if !offered && extra {
                return Err(format!("no longer offers {n}"));
            }
        }
        // the accessors on Shape tell the same
        let s = f.shape;
        let acc = [
            ("is_display", s.is_display(), vt.display.is_some()),
            ("is_debug", s.is_debug(), vt.debug.is_some()),
            ("is_partial_eq", s.is_partial_eq(), vt.eq.is_some()),
            ("is_partial_ord", s.is_partial_ord(), vt.partial_ord.is_some()),
            ("is_ord", s.is_ord(), vt.ord.is_some()),
            ("is_hash", s.is_hash(), vt.hash.is_some()),
            ("is_default", s.is_default(), vt.default_in_place.is_some()),
            ("is_clone", s.is_clone(), vt.clone_into.is_some()),
            ("is_from_str", s.is_from_str(), vt.parse.is_some()),
        ];
        for (n, a, b) in acc {
            if a != b {
                return Err(format!("{n}() is {a}"));
            }
        }
        let m = vt.marker_traits;
        let marks = [
            ("Eq", m.contains(MarkerTraits::EQ), s.is_eq()),
            ("Send", m.contains(MarkerTraits::SEND), s.is_send()),
            ("Sync", m.contains(MarkerTraits::SYNC), s.is_sync()),
            ("Copy", m.contains(MarkerTraits::COPY), s.is_copy()),
            ("Unpin", m.contains(MarkerTraits::UNPIN), s.vtable.is_unpin()),
            ("Eq", m.contains(MarkerTraits::EQ), s.vtable.is_eq()),
            ("Send", m.contains(MarkerTraits::SEND), s.vtable.is_send()),
            ("Sync", m.contains(MarkerTraits::SYNC), s.vtable.is_sync()),
            ("Copy", m.contains(MarkerTraits::COPY), s.vtable.is_copy()),
        ];
        for (i, (n, a, b)) in marks.into_iter().enumerate() {
            let real = f.markers[i % 5];
            if a && !real {
                return Err(format!("marked {n}, which the type is not"));
            }
            if f.full && !a && real {
                return Err(format!("not marked {n}, which the type is"));
            }
            if a != b {
                return Err(format!("is_{} is {b}", n.to_lowercase()));
            }
        }
        if vt.drop_in_place.is_none() && f.needs_drop {
            return Err("cannot be dropped".into());
        }
        ok_class(fnv(g.as_bytes()))
    });
}
fn table<T: Facet>(ctx: &mut Ctx, f: Facts<T>) {
    let g = f.name;
    let vt = T::SHAPE.vtable;
    let o = &f.ops;
    offers(ctx, &Offers {
        name: g,
        shape: T::SHAPE,
        ops: [
            o.display.is_some(), o.debug.is_some(), o.eq.is_some(), o.partial_ord.is_some(), o.ord.is_some(),
            o.hash.is_some(), o.default.is_some(), o.clone.is_some(), o.parse.is_some(),
        ],
        markers: o.markers,
        extra: [f.extra_display.is_some(), false, false, false, false, f.extra_hash, false, false, f.extra_parse.is_some()],
        full: f.full,
        must: f.must,
        needs_drop: std::mem::needs_drop::<T>(),
    });
    if vt.drop_in_place.is_none() && std::mem::needs_drop::<T>() {
        return;
    }

    let n = (f.vals)().len();
    for i in 0..n {
        for j in 0..n {
            ctx.case("pairs", &|| format!("{g} values {i} and {j}"), || pair(&f, i, j));
        }
        ctx.case("values", &|| format!("{g} value {i}"), || single(&f, i));
    }
    if vt.default_in_place.is_some() {
        ctx.case("default", &|| g.to_string(), || {
            let want = f.ops.default.map(|d| (f.show)(&d()));
            let mut bad = None;
            let (_, rep) = tracked(|| {
                let mut t = Guarded::<T>::new();
                let p = t.v.as_mut_ptr();
                let r = unsafe { (vt.default_in_place.unwrap())(PtrUninit::new(p)) };
                if r.as_byte_ptr() != p as *const u8 {
                    bad = Some("returned another place".to_string());
                }
                if !t.intact() {
                    bad = Some("wrote outside the place".to_string());
                }
                untracked(|| {
                    let got = (f.show)(unsafe { &*p });
                    if Some(&got) != want.as_ref() {
                        bad = Some(format!("default is {got}, not {want:?}"));
                    }
                });
                drop_through(p);
            });
            if let Some(b) = bad {
                return Err(b);
            }
            if !rep.clean() {
                return Err(rep.describe());
            }
            ok_class(fnv(format!("default {g}").as_bytes()))
        });
    }
    if vt.parse.is_some() {
        for s in TEXTS {
            ctx.case("parse", &|| format!("{g} from {s:?}"), || {
                let native = f.extra_parse.or(f.ops.parse).unwrap();
                let want = native(s).map(|x| (f.show)(&x));
                let mut got = None;
                let mut bad = None;
                let (_, rep) = tracked(|| {
                    let mut t = Guarded::<T>::new();
                    let p = t.v.as_mut_ptr();
                    match unsafe { (vt.parse.unwrap())(s, PtrUninit::new(p)) } {
                        Ok(r) => {
                            if r.as_byte_ptr() != p as *const u8 {
                                bad = Some("returned another place".to_string());
                            }
                            untracked(|| got = Some((f.show)(unsafe { &*p })));
                            drop_through(p);
                        }
                        Err(e) => untracked(|| {
                            let _ = format!("{e} {e:?}");
                        }),
                    }
                    if !t.intact() {
                        bad = Some("wrote outside the place".to_string());
                    }
                });
                if let Some(b) = bad {
                    return Err(b);
                }
                if got != want {
                    return Err(format!("parsed {got:?}, natively {want:?}"));
                }
                if !rep.clean() {
                    return Err(rep.describe());
                }
                ok_class(fnv(format!("parse {g} {got:?}").as_bytes()))
            });
        }
    }
}

fn single<T: Facet>(f: &Facts<T>, i: usize) -> CaseResult {
    let vt = T::SHAPE.vtable;
    let v = (f.vals)().remove(i);
    let p = PtrConst::new(&raw const v);
    let peek = facet_reflect::Peek::new(&v);
    if vt.display.is_some() {
        let want = f.ops.display.or(f.extra_display).unwrap()(&v);
        let got = Disp(T::SHAPE, p, false).to_string();
        if got != want || peek.to_string() != want {
            return Err(format!("displayed as {got:?} / {:?}, natively {want:?}", peek.to_string()));
        }
        failing(&Disp(T::SHAPE, p, false), &want)?;
        if let (true, Some(d)) = (f.full, f.ops.display_as) {
            let (want, got) = (d(&v), mc::formats!(display Disp(T::SHAPE, p, false)));
            if got != want {
                return Err(format!("with options displayed as {got:?}, natively {want:?}"));
            }
        }
    } else if !peek.to_string().contains(&T::SHAPE.to_string()) {
        return Err(format!("without Display, displayed as {:?} (its type should be named)", peek.to_string()));
    }
    if vt.debug.is_some() {
        let want = f.ops.debug.unwrap()(&v);
        let got = Disp(T::SHAPE, p, true).to_string();
        if got != want || format!("{peek:?}") != want {
            return Err(format!("debug {got:?} / {peek:?}, natively {want:?}"));
        }
        failing(&Disp(T::SHAPE, p, true), &want)?;
        if let (true, Some(d)) = (f.full, f.ops.debug_as) {
            let (want, got) = (d(&v), mc::formats!(debug Disp(T::SHAPE, p, true)));
            if got != want {
                return Err(format!("with options debug {got:?}, natively {want:?}"));
            }
        }
    } else if !format!("{peek:?}").contains(&T::SHAPE.to_string()) {
        return Err(format!("without Debug, formatted as {peek:?} (its type should be named)"));
    }
    if vt.hash.is_some() {
        let got = hash_through(T::SHAPE, p);
        if let Some(h) = f.ops.hash {
            let want = h(&v);
            if got != want {
                return Err(format!("hashes {got:?}, natively {want:?}"));
            }
        }
        let mut r = Recorder::default();
        if !peek.hash(&mut r) || r.0 != got {
            return Err(format!("hashed through Peek: {:?}, natively {got:?}", r.0));
        }
        let mut r = Recorder::default();
        std::hash::Hash::hash(&peek, &mut r);
        if r.0 != got {
            return Err(format!("hashed through Peek's Hash: {:?}, natively {got:?}", r.0));
        }
    } else {
        let mut r = Recorder::default();
        if peek.hash(&mut r) || r.0 != Recorder::default().0 {
            return Err(format!("without Hash, hashed through Peek: {:?}", r.0));
        }
    }
    let before = (f.show)(&v);
    // dropping through the shape releases everything
    let (_, rep) = tracked(|| {
        let mut t = Guarded::<T>::new();
        t.v.write((f.vals)().swap_remove(i));
        drop_through(t.v.as_mut_ptr());
    });
    if !rep.clean() {
        return Err(format!("dropping: {}", rep.describe()));
    }
    if vt.clone_into.is_some() {
        // a clone outlives what it was cloned from, and the other way around
        for first in [true, false] {
            let mut bad = None;
            let (_, rep) = tracked(|| {
                let mut src = Guarded::<T>::new();
                src.v.write((f.vals)().swap_remove(i));
                let mut dst = Guarded::<T>::new();
                let p = dst.v.as_mut_ptr();
                let r = unsafe { (vt.clone_into.unwrap())(PtrConst::new(src.v.as_ptr()), PtrUninit::new(p)) };
                if r.as_byte_ptr() != p as *const u8 {
                    bad = Some("returned another place".to_string());
                }
                let sp = src.v.as_mut_ptr();
                let (a, b) = if first { (sp, p) } else { (p, sp) };
                untracked(|| {
                    for x in [sp, p] {
                        let got = (f.show)(unsafe { &*x });
                        if got != before {
                            bad = Some(format!("cloning {before} left {got}"));
                        }
                    }
                });
                drop_through(a);
                untracked(|| {
                    let got = (f.show)(unsafe { &*b });
                    if got != before {
                        bad = Some(format!("clone of {before} is {got} once the other is gone"));
                    }
                });
                drop_through(b);
                if !dst.intact() || !src.intact() {
                    bad = Some("wrote outside the place".to_string());
                }
            });
            if let Some(b) = bad {
                return Err(b);
            }
            if !rep.clean() {
                return Err(format!("cloning: {}", rep.describe()));
            }
        }
    }
    ok_class(fnv(format!("{} {before}", f.name).as_bytes()))
}

fn pair<T: Facet>(f: &Facts<T>, i: usize, j: usize) -> CaseResult {
    let vt = T::SHAPE.vtable;
    let a = (f.vals)().remove(i);
    let b = (f.vals)().remove(j);
    let (p, q) = (PtrConst::new(&raw const a), PtrConst::new(&raw const b));
    let (x, y) = (facet_reflect::Peek::new(&a), facet_reflect::Peek::new(&b));
    let mut class = String::new();
    let mut eq = None;
    if let Some(h) = vt.eq {
        let want = f.ops.eq.unwrap()(&a, &b);
        let got = unsafe { h(p, q) };
        if got != want || x.eq(&y) != Some(want) || (x == y) != want {
            return Err(format!("eq {got} / {:?} / {}, natively {want}", x.eq(&y), x == y));
        }
        eq = Some(got);
        class += &format!("eq{got}");
    } else if x.eq(&y).is_some() || x == y {
        return Err("peeked values are equal without equality".into());
    }
    if let Some(h) = vt.partial_ord {
        let want = f.ops.partial_ord.unwrap()(&a, &b);
        let got = unsafe { h(p, q) };
        let tr = PartialOrd::partial_cmp(&x, &y);
        if got != want || x.partial_cmp(&y) != want || tr != want {
            return Err(format!("partial_cmp {got:?} / {:?} / {tr:?}, natively {want:?}", x.partial_cmp(&y)));
        }
        class += &format!("p{got:?}");
        if let (Some(e), true) = (eq, f.ops.partial_ord.is_some()) {
            let native_eq = want == Some(Ordering::Equal);
            if e != native_eq && f.ops.eq.unwrap()(&a, &b) == native_eq {
                return Err(format!("equal: {e}, ordered {want:?}"));
            }
        }
    }
    if vt.partial_ord.is_none() && (x.partial_cmp(&y).is_some() || PartialOrd::partial_cmp(&x, &y).is_some()) {
        return Err("peeked values are ordered without order".into());
    }
    if let Some(h) = vt.ord {
        let want = f.ops.ord.unwrap()(&a, &b);
        let got = unsafe { h(p, q) };
        if got != want {
            return Err(format!("cmp {got:?}, natively {want:?}"));
        }
        class += &format!("o{got:?}");
    }
    if vt.hash.is_some() && eq == Some(true) && hash_through(T::SHAPE, p) != hash_through(T::SHAPE, q) {
        return Err("equal values hash differently".into());
    }
    ok_class(fnv(format!("{} {class}", f.name).as_bytes()))
}

macro_rules! f {
    ($ctx:expr, $t:ty, $show:expr, $full:expr, $must:expr, [$($v:expr),* $(,)?] $(, $k:ident = $e:expr)*) => {{
        #[allow(unused_mut)]
        let mut facts = Facts::<$t> {
            name: stringify!($t), ops: mc::ops!($t), vals: || vec![$($v),*], show: $show, full: $full, must: $must,
            extra_display: None, extra_hash: false, extra_parse: None,
        };
        $( facts.$k = $e; )*
        table($ctx, facts);
    }};
}
/// scalars and derived types
macro_rules! full { ($ctx:expr, $t:ty, [$($v:tt)*] $($rest:tt)*) => { f!($ctx, $t, |x| format!("{x:?}"), true, "", [$($v)*] $($rest)*) }; }
macro_rules! cont { ($ctx:expr, $t:ty, $must:expr, [$($v:tt)*] $($rest:tt)*) => { f!($ctx, $t, |x| format!("{x:?}"), false, $must, [$($v)*] $($rest)*) }; }

fn s(x: &str) -> String {
    x.to_string()
}

// ---- derived types ----
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
struct All {
    a: String,
    b: u8,
}
#[derive(Facet, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
#[allow(dead_code)]
enum AllE {
    X,
    Y(u32),
    Z { q: bool },
}
#[derive(Facet)]
struct Nothing {
    a: String,
}
#[derive(Facet, PartialEq)]
struct OnlyEq(u8);
#[derive(Facet, PartialEq, PartialOrd)]
struct OnlyPartialOrd(f64);
#[derive(Facet, Clone)]
struct OnlyClone(Vec<String>);
#[derive(Facet, Default)]
struct OnlyDefault {
    a: Vec<u8>,
    b: u64,
}
#[derive(Facet, Hash)]
struct OnlyHash(u16, u8);
#[derive(Facet, Debug)]
struct OnlyDebug {
    a: u8,
}
#[derive(Facet, Debug, Clone, PartialEq, Eq, Hash, Default)]
struct Empty;
#[derive(Facet, Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
struct Gen<T: Facet> {
    t: T,
    n: u8,
}
/// none of the implementations is what a derive would give
#[derive(Facet)]
struct Odd {
    a: String,
    b: i32,
}
impl fmt::Debug for Odd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "odd debug {} {}", self.a, self.b)
    }
}
impl fmt::Display for Odd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "odd display {} {}", self.b, self.a)
    }
}
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.b == o.b
    }
}
impl Eq for Odd {}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Odd {
    fn cmp(&self, o: &Odd) -> Ordering {
        o.b.cmp(&self.b)
    }
}
impl std::hash::Hash for Odd {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(7);
        h.write_i32(self.b)
    }
}
impl Default for Odd {
    fn default() -> Odd {
        Odd { a: "dflt".into(), b: -3 }
    }
}
impl Clone for Odd {
    fn clone(&self) -> Odd {
        Odd { a: self.a.clone(), b: self.b }
    }
}
impl std::str::FromStr for Odd {
    type Err = ();
    fn from_str(x: &str) -> Result<Odd, ()> {
        if x.len() == 1 { Ok(Odd { a: x.to_string(), b: x.len() as i32 }) } else { Err(()) }
    }
}
/// partial equality that is not reflexive, partial order with incomparable values
#[derive(Facet, Clone, Debug)]
struct Partial(i8);
impl PartialEq for Partial {
    fn eq(&self, o: &Partial) -> bool {
        self.0 == o.0 && self.0 >= 0
    }
}
impl PartialOrd for Partial {
    fn partial_cmp(&self, o: &Partial) -> Option<Ordering> {
        if self.0 < 0 || o.0 < 0 { None } else { self.0.partial_cmp(&o.0) }
    }
}
/// tells which operand is on which side
#[derive(Facet, Clone, Debug)]
struct Sided(i8);
impl PartialEq for Sided {
    fn eq(&self, o: &Sided) -> bool {
        self.0 <= o.0
    }
}
impl PartialOrd for Sided {
    fn partial_cmp(&self, o: &Sided) -> Option<Ordering> {
        if self.0 < o.0 { None } else { Some(Ordering::Less) }
    }
}
#[derive(Facet, Debug, Clone, Default)]
struct NotSync(PhantomData<std::cell::Cell<u8>>);
#[derive(Facet, Debug, Clone, Default)]
struct NotSend(PhantomData<*const u8>);
#[derive(Facet, Debug, Clone, Default)]
struct NotUnpin(PhantomData<std::marker::PhantomPinned>);

#[derive(Facet, Default, Clone, Debug)]
struct Seeded;
impl BuildHasher for Seeded {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        DefaultHasher::new()
    }
}

fn show_map<V: fmt::Debug, S>(m: &HashMap<String, V, S>) -> String {
    format!("{:?}", m.iter().collect::<BTreeMap<_, _>>())
}
fn map_of<V, S: BuildHasher + Default>(cap: usize, rev: bool, kv: Vec<(String, V)>) -> HashMap<String, V, S> {
    let mut m = HashMap::with_capacity_and_hasher(cap, S::default());
    if rev { m.extend(kv.into_iter().rev()) } else { m.extend(kv) }
    m
}
fn disp_arr<T: fmt::Display>(x: &[T]) -> String {
    format!("[{}]", x.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", "))
}
fn many(n: usize) -> Vec<(String, u32)> {
    (0..n).map(|i| (format!("k{i}"), i as u32)).collect()
}

/// A characteristic, read from where it comes from.
fn of(s: &'static facet::Shape, c: facet_core::Characteristic) -> bool {
    use facet_core::Characteristic as C;
    let (v, m) = (s.vtable, s.vtable.marker_traits);
    match c {
        C::Send => m.contains(MarkerTraits::SEND),
        C::Sync => m.contains(MarkerTraits::SYNC),
        C::Copy => m.contains(MarkerTraits::COPY),
        C::Eq => m.contains(MarkerTraits::EQ),
        C::Unpin => m.contains(MarkerTraits::UNPIN),
        C::Clone => v.clone_into.is_some(),
        C::Display => v.display.is_some(),
        C::Debug => v.debug.is_some(),
        C::PartialEq => v.eq.is_some(),
        C::PartialOrd => v.partial_ord.is_some(),
        C::Ord => v.ord.is_some(),
        C::Hash => v.hash.is_some(),
        C::Default => v.default_in_place.is_some(),
        C::FromStr => v.parse.is_some(),
        _ => s.is(c),
    }
}

fn run(ctx: &mut Ctx) {
    macro_rules! ints { ($($t:ident)*) => { $(
        full!(ctx, $t, [0, 1, 2, 9, 10, $t::MAX, $t::MAX - 1, $t::MAX / 2, $t::MIN, $t::MIN + 1, (0 as $t).wrapping_sub(1), 127]);
        full!(ctx, NonZero<$t>, [NonZero::new(1).unwrap(), NonZero::new(2).unwrap(), NonZero::new($t::MAX).unwrap(),
            NonZero::new((0 as $t).wrapping_sub(1)).unwrap(), NonZero::new($t::MAX / 2).unwrap()]);
        cont!(ctx, Option<$t>, "debug default", [None, Some(0), Some(1), Some($t::MAX)], extra_parse = Some(|s| s.parse().ok().map(Some)));
        cont!(ctx, Vec<$t>, SEQ, [vec![], vec![0], vec![1], vec![1, 0], vec![1, 2, $t::MAX]]);
        cont!(ctx, [$t; 2], ARR, [[0, 0], [0, 1], [1, 0], [$t::MAX, $t::MIN]], extra_display = Some(|x| disp_arr(x)));
        cont!(ctx, &'static [$t], "debug eq partial_ord ord hash clone default", [&[], &[0], &[1], &[1, 0], &[1, 2, $t::MAX]]);
        cont!(ctx, BTreeMap<$t, $t>, "debug eq hash clone default", [BTreeMap::new(), BTreeMap::from([(1, 2)]), BTreeMap::from([(2, 1)]), BTreeMap::from([(1, 2), (2, 1)])]);
        cont!(ctx, ($t, u8), TUP, [(0, 1), (1, 0), (1, 1), ($t::MAX, 2)]);
    )* }; }
    const SEQ: &str = "debug eq hash clone default";
    const ARR: &str = "debug eq partial_ord ord hash clone default";
    const TUP: &str = "debug eq";
    ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    macro_rules! floats { ($($t:ident)*) => { $(
        full!(ctx, $t, [0.0, -0.0, 1.0, -1.5, 0.1, 1e10, 1e30, $t::NAN, -$t::NAN, $t::INFINITY, $t::NEG_INFINITY, $t::MIN, $t::MAX, $t::EPSILON, $t::MIN_POSITIVE]);
        cont!(ctx, Vec<$t>, SEQ, [vec![], vec![0.0], vec![-0.0], vec![$t::NAN], vec![1.0, $t::NAN], vec![1.0, 2.0]]);
        cont!(ctx, [$t; 2], ARR, [[0.0, 1.0], [-0.0, 1.0], [$t::NAN, 1.0], [1.0, $t::NAN], [1.0, 2.0], [2.0, $t::NAN]], extra_display = Some(|x| disp_arr(x)));
        cont!(ctx, &'static [$t], "debug eq partial_ord clone default", [&[], &[0.0], &[-0.0], &[$t::NAN], &[1.0, $t::NAN], &[1.0, 2.0], &[1.0, $t::NAN, 3.0]]);
        cont!(ctx, ($t, $t), TUP, [(0.0, 1.0), (-0.0, 1.0), ($t::NAN, 1.0), (1.0, $t::NAN), (1.0, 2.0), (2.0, $t::NAN)]);
        cont!(ctx, Option<$t>, "debug", [None, Some(1.5), Some($t::NAN)], extra_parse = Some(|s| s.parse().ok().map(Some)));
        cont!(ctx, BTreeMap<u8, $t>, "debug eq clone default", [BTreeMap::new(), BTreeMap::from([(1, 1.0)]), BTreeMap::from([(1, $t::NAN)]), BTreeMap::from([(1, 0.0)]), BTreeMap::from([(1, -0.0)])]);
    )* }; }
    floats!(f32 f64);
    full!(ctx, bool, [false, true]);
    full!(ctx, char, ['a', 'b', '\0', '\n', '"', '\'', '\\', 'é', '\u{7f}', '\u{10ffff}', '\u{301}']);
    full!(ctx, (), [(), ()]);
    full!(ctx, String, [s(""), s("a"), s("ab"), s("b"), s("\"q\\\n"), s("é\u{0}"), "x".repeat(100)]);
    full!(ctx, &'static str, ["", "a", "ab", "b", "\"q\\\n", "é\u{0}"]);
    full!(ctx, Cow<'static, str>, [Cow::Borrowed(""), Cow::Owned(s("")), Cow::Borrowed("a"), Cow::Owned(s("a")), Cow::Owned(s("\"b")), Cow::Borrowed("z")]);
    full!(ctx, PathBuf, [PathBuf::new(), "a".into(), "a/b".into(), "a/./b".into(), "a//b".into(), "/".into(), "b".into()]);
    full!(ctx, Utf8PathBuf, [Utf8PathBuf::new(), "a".into(), "a/b".into(), "a/./b".into(), "a//b".into(), "/".into(), "b".into(), "é".into()]);
    full!(ctx, &'static Utf8Path, [Utf8Path::new(""), Utf8Path::new("a"), Utf8Path::new("a/b"), Utf8Path::new("a//b"), Utf8Path::new("/"), Utf8Path::new("b"), Utf8Path::new("\u{e9}")]);
    full!(ctx, &'static Path, [Path::new(""), Path::new("a"), Path::new("a/b"), Path::new("a//b"), Path::new("/"), Path::new("b")]);
    let v4 = || vec![Ipv4Addr::new(0, 0, 0, 0), Ipv4Addr::new(127, 0, 0, 1), Ipv4Addr::new(1, 2, 3, 4), Ipv4Addr::new(255, 255, 255, 255)];
    let _ = v4;
    full!(ctx, Ipv4Addr, [Ipv4Addr::new(0, 0, 0, 0), Ipv4Addr::new(127, 0, 0, 1), Ipv4Addr::new(1, 2, 3, 4), Ipv4Addr::BROADCAST]);
    full!(ctx, Ipv6Addr, [Ipv6Addr::LOCALHOST, Ipv6Addr::UNSPECIFIED, Ipv6Addr::new(1, 2, 3, 4, 5, 6, 7, 8), Ipv4Addr::new(1, 2, 3, 4).to_ipv6_mapped()]);
    full!(ctx, IpAddr, [IpAddr::V4(Ipv4Addr::LOCALHOST), IpAddr::V6(Ipv6Addr::LOCALHOST), IpAddr::V4(Ipv4Addr::BROADCAST), IpAddr::V6(Ipv4Addr::LOCALHOST.to_ipv6_mapped())]);
    full!(ctx, SocketAddr, ["1.2.3.4:80".parse().unwrap(), "1.2.3.4:81".parse().unwrap(), "[::1]:80".parse().unwrap(), "[::1]:0".parse().unwrap(), "1.2.3.5:80".parse().unwrap()]);
    full!(ctx, ConstTypeId, [ConstTypeId::of::<u8>(), ConstTypeId::of::<String>(), ConstTypeId::of::<()>()]);
    f!(ctx, std::hash::RandomState, |_| s("state"), true, "", [std::hash::RandomState::new()]);
    cont!(ctx, PhantomData<u8>, "debug eq clone default", [PhantomData, PhantomData]);
    cont!(ctx, PhantomData<std::cell::Cell<u8>>, "", [PhantomData, PhantomData]);
    cont!(ctx, PhantomData<Nothing>, "", [PhantomData]);

    // ---- sequences ----
    cont!(ctx, Vec<String>, SEQ, [vec![], vec![s("")], vec![s("a")], vec![s("a"), s("b")], vec![s("ab")], vec![s("b"), s("a")], vec![s("a"), s("b"), s("c")]]);
    cont!(ctx, Vec<Vec<u8>>, SEQ, [vec![], vec![vec![]], vec![vec![], vec![]], vec![vec![1]], vec![vec![1], vec![2]], vec![vec![1, 2]], vec![vec![], vec![1, 2]]]);
    cont!(ctx, Vec<()>, SEQ, [vec![], vec![()], vec![(), ()]]);
    cont!(ctx, Vec<(u8, u32)>, "debug eq default", [vec![], vec![(1, 2)], vec![(1, 2), (3, 4)], vec![(3, 4), (1, 2)]]);
    cont!(ctx, Vec<All>, SEQ, [vec![], vec![All::default()], vec![All { a: s("x"), b: 1 }, All::default()]]);
    cont!(ctx, Vec<Option<String>>, "debug default", [vec![], vec![None], vec![Some(s("x")), None]]);
    cont!(ctx, Vec<Box4>, SEQ, [vec![], vec![[s("a"), s("b"), s("c"), s("d")]]]);
    f!(ctx, Vec<Nothing>, |v| format!("{:?}", v.iter().map(|x| &x.a).collect::<Vec<_>>()), false, "default", [vec![], vec![Nothing { a: s("x") }, Nothing { a: s("y") }]]);
    f!(ctx, Vec<OnlyEq>, |v| format!("{:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()), false, "eq", [vec![], vec![OnlyEq(1)], vec![OnlyEq(2)], vec![OnlyEq(1), OnlyEq(2)]]);
    f!(ctx, Vec<OnlyHash>, |v| format!("{:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()), false, "hash", [vec![], vec![OnlyHash(1, 2)], vec![OnlyHash(2, 1), OnlyHash(2, 2)]]);
    f!(ctx, Vec<OnlyClone>, |v| format!("{:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>()), false, "clone", [vec![], vec![OnlyClone(vec![s("a")]), OnlyClone(vec![])]]);
    cont!(ctx, Vec<Partial>, "eq", [vec![], vec![Partial(1)], vec![Partial(-1)], vec![Partial(1), Partial(-1)]]);
    cont!(ctx, Vec<NotSync>, "", [vec![], vec![NotSync::default()]]);
    cont!(ctx, Vec<NotSend>, "", [vec![], vec![NotSend::default()]]);
    cont!(ctx, Vec<NotUnpin>, "", [vec![], vec![NotUnpin::default()]]);
    cont!(ctx, [NotSync; 1], "", [[NotSync::default()]]);
    cont!(ctx, [NotSend; 1], "", [[NotSend::default()]]);
    cont!(ctx, &'static [NotSync], "", [&[]]);
    cont!(ctx, &'static [NotSend], "", [&[]]);
    cont!(ctx, &'static [NotUnpin], "", [&[]]);
    cont!(ctx, Option<NotSync>, "", [None, Some(NotSync::default())]);
    cont!(ctx, Arc<NotSync>, "", [Arc::new(NotSync::default())]);
    cont!(ctx, Arc<NotSend>, "", [Arc::new(NotSend::default())]);
    cont!(ctx, (NotSync, NotSend, NotUnpin), "", [(NotSync::default(), NotSend::default(), NotUnpin::default())]);
    cont!(ctx, BTreeMap<u8, NotSync>, "", [BTreeMap::new(), BTreeMap::from([(1, NotSync::default())])]);
    cont!(ctx, BTreeMap<u8, NotUnpin>, "", [BTreeMap::new(), BTreeMap::from([(1, NotUnpin::default())])]);
    cont!(ctx, HashMap<u8, NotSend>, "", [HashMap::new(), HashMap::from([(1, NotSend::default())])]);
    cont!(ctx, HashMap<u8, NotUnpin>, "", [HashMap::new(), HashMap::from([(1, NotUnpin::default())])]);

    cont!(ctx, [String; 0], ARR, [[], []], extra_display = Some(|x| disp_arr(x)));
    cont!(ctx, [String; 1], ARR, [[s("")], [s("a")], [s("b")]], extra_display = Some(|x| disp_arr(x)));
    cont!(ctx, [String; 3], ARR, [[s("a"), s("b"), s("c")], [s("a"), s("b"), s("d")], [s("a"), s("c"), s("b")], [s("b"), s("a"), s("c")]], extra_display = Some(|x| disp_arr(x)));
    cont!(ctx, [Vec<u8>; 2], "debug eq hash clone default", [[vec![], vec![1, 2]], [vec![1], vec![2]], [vec![1, 2], vec![]]]);
    cont!(ctx, [(u8, u32); 3], "debug eq", [[(1, 2), (3, 4), (5, 6)], [(1, 2), (3, 4), (5, 7)], [(0, 2), (9, 4), (5, 6)]]);
    cont!(ctx, [u8; 32], ARR, [[0; 32], [1; 32]], extra_display = Some(|x| disp_arr(x)));
    cont!(ctx, [u8; 33], "debug eq partial_ord ord hash clone", [[0; 33], [1; 33]], extra_display = Some(|x| disp_arr(x)));
    cont!(ctx, [(); 4], "debug eq partial_ord ord hash clone default", [[(); 4], [(); 4]]);
    cont!(ctx, [[u16; 2]; 2], ARR, [[[1, 2], [3, 4]], [[1, 2], [3, 5]], [[1, 3], [0, 0]]], extra_display = Some(|x| disp_arr(&x.iter().map(|y| disp_arr(y)).collect::<Vec<_>>())));
    f!(ctx, [Nothing; 1], |v| format!("{:?}", v.iter().map(|x| &x.a).collect::<Vec<_>>()), false, "", [[Nothing { a: s("x") }]]);
    f!(ctx, [Nothing; 0], |v| format!("{:?}", v.iter().map(|x| &x.a).collect::<Vec<_>>()), false, "default", [[], []]);
    f!(ctx, [OnlyEq; 2], |v| format!("{:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()), false, "eq", [[OnlyEq(1), OnlyEq(2)], [OnlyEq(1), OnlyEq(3)], [OnlyEq(0), OnlyEq(2)]]);
    f!(ctx, [OnlyPartialOrd; 2], |v| format!("{:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()), false, "eq partial_ord", [[OnlyPartialOrd(1.0), OnlyPartialOrd(2.0)], [OnlyPartialOrd(1.0), OnlyPartialOrd(f64::NAN)], [OnlyPartialOrd(f64::NAN), OnlyPartialOrd(2.0)], [OnlyPartialOrd(0.0), OnlyPartialOrd(f64::NAN)]]);
    f!(ctx, [OnlyDefault; 2], |v| format!("{:?}", v.iter().map(|x| (&x.a, x.b)).collect::<Vec<_>>()), false, "default", [[OnlyDefault { a: vec![1], b: 2 }, OnlyDefault::default()]]);
    f!(ctx, [OnlyClone; 2], |v| format!("{:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>()), false, "clone", [[OnlyClone(vec![s("a")]), OnlyClone(vec![s("b"), s("c")])]]);
    cont!(ctx, [Odd; 2], ARR, [[Odd::default(), Odd { a: s("q"), b: 4 }], [Odd { a: s("q"), b: 4 }, Odd::default()]], extra_display = Some(|x| disp_arr(x)));

    const SL: &str = "debug eq partial_ord ord hash clone default";
    cont!(ctx, &'static [&'static str], SL, [&[], &[""], &["a"], &["a", "b"], &["ab"], &["b", "a"]]);
    cont!(ctx, &'static [(u8, u32)], "debug eq clone default", [&[], &[(1, 2)], &[(1, 2), (3, 4)], &[(1, 3)]]);
    cont!(ctx, &'static [()], SL, [&[], &[()], &[(), ()]]);
    cont!(ctx, &'static [&'static [u8]], SL, [&[], &[&[]], &[&[], &[]], &[&[1], &[2]], &[&[1, 2], &[]], &[&[], &[1, 2]]]);
    cont!(ctx, Vec<&'static [u8]>, SEQ, [vec![], vec![&[]], vec![&[1], &[2]], vec![&[1, 2], &[]], vec![&[], &[1, 2]]]);
    f!(ctx, &'static [OnlyEq], |v| format!("{:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()), false, "eq", [&[], &[OnlyEq(1)], &[OnlyEq(2)], &[OnlyEq(1), OnlyEq(2)]]);

    // ---- every sequence up to length 3 over a small domain ----
    macro_rules! all {
        ($t:ty, $must:expr, $vals:expr, $disp:expr) => {
            table(ctx, Facts::<$t> { name: concat!("all ", stringify!($t)), ops: mc::ops!($t), vals: $vals, show: |x| format!("{x:?}"),
                full: false, must: $must, extra_display: $disp, extra_hash: false, extra_parse: None });
        };
        ($t:ty, $must:expr, $vals:expr) => { all!($t, $must, $vals, None) };
    }
    fn seqs<T: Clone>(dom: &[T], max: usize) -> Vec<Vec<T>> {
        let mut out = vec![vec![]];
        let mut from = 0;
        for _ in 0..max {
            let to = out.len();
            for i in from..to {
                for d in dom {
                    let mut v = out[i].clone();
                    v.push(d.clone());
                    out.push(v);
                }
            }
            from = to;
        }
        out
    }
    fn arrs<T: Clone>(dom: &[T]) -> Vec<[T; 3]> {
        seqs(dom, 3).into_iter().filter(|v| v.len() == 3).map(|v| [v[0].clone(), v[1].clone(), v[2].clone()]).collect()
    }
    fn leak<T: 'static>(v: fn() -> Vec<Vec<T>>) -> Vec<&'static [T]> {
        untracked(|| v().into_iter().map(|x| &*x.leak()).collect())
    }
    all!(Vec<u8>, SEQ, || seqs(&[0, 1, 255], 3));
    all!(Vec<String>, SEQ, || seqs(&[s(""), s("a"), s("b")], 3));
    all!(Vec<f64>, "debug eq clone default", || seqs(&[0.0, -0.0, 1.0, f64::NAN], 3));
    all!(Vec<Vec<u8>>, SEQ, || seqs(&[vec![], vec![0], vec![0, 0]], 3));
    all!(&'static [u8], SL, || leak(|| seqs(&[0, 1, 255], 3)));
    all!(&'static [f64], "debug eq partial_ord clone default", || leak(|| seqs(&[0.0, -0.0, 1.0, f64::NAN], 3)));
    all!(&'static [&'static str], SL, || leak(|| seqs(&["", "a", "b"], 3)));
    all!([i8; 3], ARR, || arrs(&[-1, 0, 1]), Some(|x| disp_arr(x)));
    all!([String; 3], ARR, || arrs(&[s(""), s("a"), s("b")]), Some(|x| disp_arr(x)));
    all!([Partial; 3], "eq", || arrs(&[Partial(-1), Partial(0), Partial(1)]));
    all!((u8, u8, u8), TUP, || arrs(&[0, 1, 2]).into_iter().map(|[a, b, c]| (a, b, c)).collect());
    all!((f64, f64, f64), TUP, || arrs(&[f64::NAN, 0.0, 1.0]).into_iter().map(|[a, b, c]| (a, b, c)).collect());
    all!(BTreeMap<u8, u8>, SEQ, || seqs(&[(0, 0), (0, 1), (1, 0), (2, 1)], 3).into_iter().map(|v| v.into_iter().collect()).collect());
    all!(All, "", || arrs(&[0u8, 1, 2]).into_iter().map(|[a, b, _]| All { a: "x".repeat(a as usize), b }).collect());
    // equal maps built in different orders and capacities
    table(ctx, Facts::<HashMap<String, u32>> { name: "all HashMap<String, u32>", ops: mc::ops!(HashMap<String, u32>),
        vals: || seqs(&[0usize, 1, 2], 3).into_iter().enumerate().map(|(i, v)| map_of(i * 7, i % 2 == 0, v.into_iter().map(|x| (format!("k{x}"), x as u32 / 2)).collect())).collect(),
        show: show_map, full: false, must: "debug eq hash clone default", extra_display: None, extra_hash: true, extra_parse: None });

    // ---- options ----
    cont!(ctx, Option<String>, "debug default", [None, Some(s("")), Some(s("a\"b"))], extra_parse = Some(|x| Some(Some(x.to_string()))));
    cont!(ctx, Option<Option<u8>>, "debug default", [None, Some(None), Some(Some(1))], extra_parse = Some(|x| x.parse().ok().map(|v| Some(Some(v)))));
    cont!(ctx, Option<Vec<String>>, "debug default", [None, Some(vec![]), Some(vec![s("x"), s("y")])]);
    cont!(ctx, Option<All>, "debug default", [None, Some(All::default()), Some(All { a: s("k"), b: 3 })]);
    cont!(ctx, Option<Odd>, "debug default", [None, Some(Odd::default())], extra_parse = Some(|x| x.parse().ok().map(Some)));
    cont!(ctx, Option<bool>, "debug default", [None, Some(true), Some(false)], extra_parse = Some(|x| x.parse().ok().map(Some)));
    cont!(ctx, Option<IpAddr>, "debug default", [None, Some(IpAddr::V4(Ipv4Addr::LOCALHOST))], extra_parse = Some(|x| x.parse().ok().map(Some)));
    f!(ctx, Option<Nothing>, |v| format!("{:?}", v.as_ref().map(|x| &x.a)), false, "default", [None, Some(Nothing { a: s("x") })]);

    // ---- maps ----
    const MAP: &str = "debug eq hash clone default";
    cont!(ctx, BTreeMap<String, String>, MAP, [BTreeMap::new(), BTreeMap::from([(s("a"), s("b"))]), BTreeMap::from([(s("b"), s("a"))]), BTreeMap::from([(s("a"), s("b")), (s("c"), s("d"))]), BTreeMap::from([(s("a"), s("b")), (s("c"), s("e"))])]);
    cont!(ctx, BTreeMap<u8, Vec<u8>>, MAP, [BTreeMap::new(), BTreeMap::from([(1, vec![])]), BTreeMap::from([(1, vec![2])]), BTreeMap::from([(1, vec![2, 3]), (4, vec![])])]);
    cont!(ctx, BTreeMap<(u8, u8), BTreeMap<u8, u8>>, "debug eq default", [BTreeMap::new(), BTreeMap::from([((1, 2), BTreeMap::from([(1, 2)]))]), BTreeMap::from([((1, 2), BTreeMap::new()), ((1, 3), BTreeMap::new())])]);
    cont!(ctx, BTreeMap<Odd, Odd>, MAP, [BTreeMap::new(), BTreeMap::from([(Odd::default(), Odd { a: s("z"), b: 0 })]), BTreeMap::from([(Odd { a: s("y"), b: 1 }, Odd::default()), (Odd { a: s("x"), b: 2 }, Odd::default())])]);
    f!(ctx, BTreeMap<u8, Nothing>, |v| format!("{:?}", v.iter().map(|(k, x)| (k, &x.a)).collect::<Vec<_>>()), false, "default", [BTreeMap::new(), BTreeMap::from([(1, Nothing { a: s("x") }), (2, Nothing { a: s("y") })])]);
    f!(ctx, BTreeMap<u8, OnlyEq>, |v| format!("{:?}", v.iter().map(|(k, x)| (k, x.0)).collect::<Vec<_>>()), false, "eq", [BTreeMap::new(), BTreeMap::from([(1, OnlyEq(1))]), BTreeMap::from([(1, OnlyEq(2))]), BTreeMap::from([(2, OnlyEq(1))])]);
    f!(ctx, HashMap<String, u32>, show_map, false, MAP, [map_of(0, false, many(0)), map_of(100, false, many(0)), map_of(0, false, many(1)), map_of(0, false, many(3)), map_of(64, true, many(3)), map_of(0, true, many(3)), map_of(0, false, many(40)), map_of(1000, true, many(40)), map_of(0, false, vec![(s("k0"), 1)]), map_of(0, false, vec![(s("k1"), 0)])], extra_hash = true);
    f!(ctx, HashMap<String, u32, Seeded>, show_map, false, MAP, [map_of(0, false, many(0)), map_of(0, false, many(1)), map_of(0, false, many(5)), map_of(64, true, many(5)), map_of(0, true, many(40)), map_of(500, false, many(40))], extra_hash = true);
    f!(ctx, HashMap<String, Vec<String>>, show_map, false, MAP, [map_of(0, false, vec![]), map_of(0, false, vec![(s("a"), vec![])]), map_of(0, false, vec![(s("a"), vec![s("x")]), (s("b"), vec![s("y")])]), map_of(9, true, vec![(s("a"), vec![s("x")]), (s("b"), vec![s("y")])])], extra_hash = true);
    f!(ctx, HashMap<String, f64>, show_map, false, "debug eq clone default", [map_of(0, false, vec![]), map_of(0, false, vec![(s("a"), f64::NAN)]), map_of(0, false, vec![(s("a"), 0.0)]), map_of(0, false, vec![(s("a"), -0.0)])]);
    f!(ctx, HashMap<String, OnlyEq>, |m| format!("{:?}", m.iter().map(|(k, v)| (k, v.0)).collect::<BTreeMap<_, _>>()), false, "eq default", [map_of(0, false, vec![]), map_of(0, false, vec![(s("a"), OnlyEq(1))]), map_of(0, false, vec![(s("a"), OnlyEq(2))])]);
    f!(ctx, HashMap<String, Nothing>, |m| format!("{:?}", m.iter().map(|(k, v)| (k, &v.a)).collect::<BTreeMap<_, _>>()), false, "default", [map_of(0, false, vec![]), map_of(0, false, vec![(s("a"), Nothing { a: s("q") })])]);

    // ---- smart pointers ----
    cont!(ctx, Arc<String>, "", [Arc::new(s("")), Arc::new(s("a")), Arc::new(s("b"))]);
    cont!(ctx, Arc<All>, "", [Arc::new(All::default()), Arc::new(All { a: s("x"), b: 1 })]);
    f!(ctx, Arc<Nothing>, |x| x.a.clone(), false, "", [Arc::new(Nothing { a: s("x") })]);
    f!(ctx, Weak<String>, |x| format!("{:?}", x.upgrade()), false, "", [Weak::new(), Arc::downgrade(&Arc::new(s("gone")))]);
    cont!(ctx, NonNull<u32>, "", [NonNull::dangling(), NonNull::from(&5)]);
    cont!(ctx, NonNull<All>, "", [NonNull::dangling()]);

    // ---- tuples: each arity, one variation per position ----
    macro_rules! tup {
        (($($t:ty),*), ($($v:expr),*), [$( ($($w:expr),*) )*]) => {
            cont!(ctx, ($($t,)*), TUP, [($($v,)*), $( ($($w,)*) ),*]);
        };
    }
    tup!((u8), (1), [(2) (0)]);
    tup!((String), (s("a")), [(s("b")) (s(""))]);
    tup!((u8, String), (1, s("b")), [(2, s("b")) (1, s("c")) (0, s("z"))]);
    tup!((String, u8), (s("b"), 1), [(s("b"), 2) (s("c"), 1) (s(""), 7)]);
    tup!((u8, String, u32), (1, s("b"), 3), [(2, s("b"), 3) (1, s("c"), 3) (1, s("b"), 4) (1, s("a"), 9)]);
    macro_rules! tups {
        ($($n:literal: ($($t:ty),*) = $f:expr;)*) => { $(
            { fn vals() -> Vec<($($t,)*)> { (0..=$n).map(|k| ($f)(k)).collect() }
              table(ctx, Facts::<($($t,)*)> { name: stringify!(($($t,)*)), ops: mc::ops!(($($t,)*)), vals, show: |x| format!("{x:?}"),
                full: false, must: TUP, extra_display: None, extra_hash: false, extra_parse: None }); }
        )* };
    }
    // d(k, i): position i is raised in variation k
    let _ = d(0, 0);
    tups! {
        4: (u8, u16, u32, u64) = |k| (d(k, 0) as u8, d(k, 1) as u16, d(k, 2) as u32, d(k, 3) as u64);
        4: (String, u8, String, u16) = |k| (t(k, 0), d(k, 1) as u8, t(k, 2), d(k, 3) as u16);
        5: (u8, String, u16, u8, u64) = |k| (d(k, 0) as u8, t(k, 1), d(k, 2) as u16, d(k, 3) as u8, d(k, 4) as u64);
        6: (u8, u8, u8, u8, u8, u8) = |k| (d(k, 0) as u8, d(k, 1) as u8, d(k, 2) as u8, d(k, 3) as u8, d(k, 4) as u8, d(k, 5) as u8);
        6: (u64, u8, String, u8, u16, u32) = |k| (d(k, 0) as u64, d(k, 1) as u8, t(k, 2), d(k, 3) as u8, d(k, 4) as u16, d(k, 5) as u32);
        7: (u8, u16, String, u8, u16, u32, String) = |k| (d(k, 0) as u8, d(k, 1) as u16, t(k, 2), d(k, 3) as u8, d(k, 4) as u16, d(k, 5) as u32, t(k, 6));
        8: (u8, u16, String, u8, u16, u32, String, u64) = |k| (d(k, 0) as u8, d(k, 1) as u16, t(k, 2), d(k, 3) as u8, d(k, 4) as u16, d(k, 5) as u32, t(k, 6), d(k, 7) as u64);
        9: (u8, u16, String, u8, u16, u32, String, u64, u8) = |k| (d(k, 0) as u8, d(k, 1) as u16, t(k, 2), d(k, 3) as u8, d(k, 4) as u16, d(k, 5) as u32, t(k, 6), d(k, 7) as u64, d(k, 8) as u8);
        10: (u8, u16, String, u8, u16, u32, String, u64, u8, String) = |k| (d(k, 0) as u8, d(k, 1) as u16, t(k, 2), d(k, 3) as u8, d(k, 4) as u16, d(k, 5) as u32, t(k, 6), d(k, 7) as u64, d(k, 8) as u8, t(k, 9));
        11: (u8, u16, String, u8, u16, u32, String, u64, u8, String, u16) = |k| (d(k, 0) as u8, d(k, 1) as u16, t(k, 2), d(k, 3) as u8, d(k, 4) as u16, d(k, 5) as u32, t(k, 6), d(k, 7) as u64, d(k, 8) as u8, t(k, 9), d(k, 10) as u16);
        12: (u8, u16, String, u8, u16, u32, String, u64, u8, String, u16, u8) = |k| (d(k, 0) as u8, d(k, 1) as u16, t(k, 2), d(k, 3) as u8, d(k, 4) as u16, d(k, 5) as u32, t(k, 6), d(k, 7) as u64, d(k, 8) as u8, t(k, 9), d(k, 10) as u16, d(k, 11) as u8);
        12: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8) = |k| (d(k, 0) as u8, d(k, 1) as u8, d(k, 2) as u8, d(k, 3) as u8, d(k, 4) as u8, d(k, 5) as u8, d(k, 6) as u8, d(k, 7) as u8, d(k, 8) as u8, d(k, 9) as u8, d(k, 10) as u8, d(k, 11) as u8);
    }
    // an element without an operation anywhere takes it from the tuple: every arity, every position
    macro_rules! odd_at {
        ($x:ty, $must:expr; [$($b:ty),*]; []) => {};
        ($x:ty, $must:expr; [$($b:ty),*]; [$h:ty $(, $t:ty)*]) => {
            let (ops, markers) = mc::implements!(($($b,)* $x, $($t,)*));
            offers(ctx, &Offers { name: stringify!(($($b,)* $x, $($t,)*)), shape: <($($b,)* $x, $($t,)*)>::SHAPE,
                ops, markers, extra: [false; 9], full: false, must: $must, needs_drop: std::mem::needs_drop::<$x>() });
            odd_at!($x, $must; [$($b,)* $h]; [$($t),*]);
        };
    }
    macro_rules! odd_in {
        ($([$($t:ty),*])*) => { $(
            odd_at!(Nothing, ""; []; [$($t),*]);
            odd_at!(OnlyEq, "eq"; []; [$($t),*]);
            odd_at!(OnlyDebug, "debug"; []; [$($t),*]);
            odd_at!(NotSync, ""; []; [$($t),*]);
            odd_at!(NotSend, ""; []; [$($t),*]);
            odd_at!(NotUnpin, ""; []; [$($t),*]);
        )* };
    }
    odd_in! {
        [u8] [u8, u8] [u8, u8, u8] [u8, u8, u8, u8] [u8, u8, u8, u8, u8] [u8, u8, u8, u8, u8, u8] [u8, u8, u8, u8, u8, u8, u8]
        [u8, u8, u8, u8, u8, u8, u8, u8] [u8, u8, u8, u8, u8, u8, u8, u8, u8] [u8, u8, u8, u8, u8, u8, u8, u8, u8, u8]
        [u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8] [u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8]
    }
    // characteristics of several shapes at once: every sequence up to length 4 of four shapes
    let shapes: [&'static facet::Shape; 4] = [u8::SHAPE, Nothing::SHAPE, String::SHAPE, NotSync::SHAPE];
    for n in 0..=4u32 {
        for code in 0..4usize.pow(n) {
            let seq: Vec<usize> = (0..n).map(|i| code / 4usize.pow(i) % 4).collect();
            ctx.case("characteristics of several shapes", &|| format!("{seq:?}"), || {
                let list: &'static [&'static facet::Shape] = Box::leak(seq.iter().map(|i| shapes[*i]).collect());
                use facet_core::Characteristic as C;
                for c in [C::Send, C::Sync, C::Copy, C::Eq, C::Unpin, C::Clone, C::Display, C::Debug, C::PartialEq, C::PartialOrd, C::Ord, C::Hash, C::Default, C::FromStr] {
                    let has: Vec<bool> = seq.iter().map(|i| of(shapes[*i], c)).collect();
                    if c.all(list) != has.iter().all(|b| *b) || c.any(list) != has.iter().any(|b| *b) || c.none(list) == has.iter().any(|b| *b) {
                        return Err(format!("{c:?}: all {}, any {}, none {} of {has:?}", c.all(list), c.any(list), c.none(list)));
                    }
                }
                ok_class(n as u64)
            });
        }
    }
    f!(ctx, (Nothing, u8), |x| format!("{} {}", x.0.a, x.1), false, "", [(Nothing { a: s("x") }, 1)]);
    f!(ctx, (u8, Nothing), |x| format!("{} {}", x.0, x.1.a), false, "", [(1, Nothing { a: s("x") })]);
    f!(ctx, (u8, OnlyEq, u8), |x| format!("{} {} {}", x.0, x.1.0, x.2), false, "eq", [(1, OnlyEq(1), 1), (1, OnlyEq(2), 1), (2, OnlyEq(1), 1), (1, OnlyEq(1), 2)]);
    f!(ctx, (OnlyDefault, OnlyDefault), |x| format!("{:?}", (&x.0.a, x.0.b, &x.1.a, x.1.b)), false, "", [(OnlyDefault::default(), OnlyDefault { a: vec![1], b: 1 })]);
    f!(ctx, (OnlyHash, u8), |x| format!("{:?}", (x.0.0, x.0.1, x.1)), false, "", [(OnlyHash(1, 2), 3), (OnlyHash(2, 1), 3)]);
    f!(ctx, (OnlyClone, OnlyClone), |x| format!("{:?}", (&x.0.0, &x.1.0)), false, "", [(OnlyClone(vec![s("a")]), OnlyClone(vec![s("b")]))]);
    cont!(ctx, (Partial, Partial), "eq", [(Partial(1), Partial(2)), (Partial(-1), Partial(2)), (Partial(1), Partial(-2)), (Partial(2), Partial(2))]);
    cont!(ctx, ((u8, String), [u8; 2], Vec<u8>), "debug eq", [((1, s("a")), [1, 2], vec![1]), ((1, s("a")), [1, 2], vec![]), ((1, s("b")), [1, 2], vec![1]), ((1, s("a")), [1, 3], vec![1])]);

    // ---- derived ----
    full!(ctx, All, [All::default(), All { a: s("a"), b: 0 }, All { a: s("a"), b: 1 }, All { a: s("b"), b: 0 }]);
    full!(ctx, AllE, [AllE::X, AllE::Y(0), AllE::Y(1), AllE::Z { q: true }, AllE::Z { q: false }]);
    full!(ctx, Empty, [Empty, Empty]);
    full!(ctx, Odd, [Odd::default(), Odd { a: s("x"), b: -3 }, Odd { a: s("x"), b: 5 }]);
    full!(ctx, Partial, [Partial(0), Partial(1), Partial(-1), Partial(1)]);
    full!(ctx, Sided, [Sided(0), Sided(1), Sided(2)]);
    cont!(ctx, Vec<Sided>, "eq", [vec![Sided(0)], vec![Sided(1)]]);
    cont!(ctx, [Sided; 1], "eq partial_ord", [[Sided(0)], [Sided(1)]]);
    cont!(ctx, &'static [Sided], "eq partial_ord", [&[Sided(0)], &[Sided(1)]]);
    cont!(ctx, (u8, Sided), "eq", [(1, Sided(0)), (1, Sided(1))]);
    cont!(ctx, BTreeMap<u8, Sided>, "eq", [BTreeMap::from([(1, Sided(0))]), BTreeMap::from([(1, Sided(1))])]);
    cont!(ctx, HashMap<u8, Sided>, "eq", [HashMap::from([(1, Sided(0))]), HashMap::from([(1, Sided(1))])]);
    full!(ctx, NotSync, [NotSync::default()]);
    full!(ctx, NotSend, [NotSend::default()]);
    full!(ctx, NotUnpin, [NotUnpin::default()]);
    f!(ctx, Nothing, |x| x.a.clone(), true, "", [Nothing { a: s("x") }]);
    f!(ctx, OnlyEq, |x| x.0.to_string(), true, "", [OnlyEq(1), OnlyEq(2)]);
    f!(ctx, OnlyPartialOrd, |x| x.0.to_string(), true, "", [OnlyPartialOrd(1.0), OnlyPartialOrd(f64::NAN), OnlyPartialOrd(-1.0)]);
    f!(ctx, OnlyClone, |x| format!("{:?}", x.0), true, "", [OnlyClone(vec![]), OnlyClone(vec![s("a"), s("b")])]);
    f!(ctx, OnlyDefault, |x| format!("{:?} {}", x.a, x.b), true, "", [OnlyDefault { a: vec![1], b: 2 }]);
    f!(ctx, OnlyHash, |x| format!("{} {}", x.0, x.1), true, "", [OnlyHash(1, 2), OnlyHash(2, 1)]);
    f!(ctx, OnlyDebug, |x| format!("{}", x.a), true, "", [OnlyDebug { a: 1 }]);
    cont!(ctx, Gen<String>, "", [Gen { t: s("a"), n: 1 }, Gen { t: s("b"), n: 0 }]);
    cont!(ctx, Gen<f64>, "", [Gen { t: 1.0, n: 1 }, Gen { t: f64::NAN, n: 0 }]);
}
type Box4 = [String; 4];
fn d(k: usize, i: usize) -> usize {
    if k == i { 99 } else { i + 1 }
}
fn t(k: usize, i: usize) -> String {
    if k == i { "~".into() } else { format!("t{i}") }
}
