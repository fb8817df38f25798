//! Types the builder and inspection checks are run on.
use crate::native::*;
use crate::{native_enum, native_struct, native_tuple_struct};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

native_struct!(S2 { a: String, b: u32 });
native_struct!(#[derive(Default)] SD { a: String, b: Vec<String>, c: u8 } default);
native_struct!(N2 { x: S2, y: S2, z: String });
native_struct!(Inner0 { first: String, second: u8 });
// the first field of the outer struct lives at the same address as the outer struct
native_struct!(Deep { inner: Mid, tail: String });
native_struct!(Mid { inner: Inner0, flag: bool });
native_enum!(#[repr(u8)] E { A, B(_0: String), C { x: String, y: u32 }, D(_0: S2) });
native_enum!(#[repr(C)] EC { A(_0: u8, _1: String), B, C { s: S2, t: String } });
native_enum!(#[repr(i16)] EI { A = 3, B(_0: E) = 5, C { x: Option<String> } = 7 });
native_enum!(#[repr(u32)] EU { A(_0: u64), B(_0: u8, _1: u16), C });
// every other representation, with discriminants as wide as they get
native_enum!(#[repr(u16)] Eu16 { A = 1, B(_0: String) = 0xff01, C { x: u8 } = 0x0101 });
native_enum!(#[repr(u64)] Eu64 { A = 1, B(_0: String) = 0x7fff000000000001, C { x: u8 } = 0x100000001 });
native_enum!(#[repr(usize)] Eusize { A = 1, B(_0: String) = 0x7fff000000000001, C { x: u8 } = 0x100000001 });
native_enum!(#[repr(i8)] Ei8 { A = 1, B(_0: String) = 127, C { x: u8 } = 2 });
native_enum!(#[repr(i32)] Ei32 { A = 1, B(_0: String) = 0x7fff0001, C { x: u8 } = 0x10001 });
native_enum!(#[repr(i64)] Ei64 { A = 1, B(_0: String) = 0x7fff000000000001, C { x: u8 } = 0x100000001 });
native_enum!(#[repr(isize)] Eisize { A = 1, B(_0: String) = 0x7fff000000000001, C { x: u8 } = 0x100000001 });
native_enum!(#[repr(u32)] Eu32 { A = 1, B(_0: String) = 0xff000001, C { x: u8 } = 0x10001 });
native_struct!(SE { e: E, o: Option<String>, n: u16 });
native_struct!(SC { v: Vec<S2>, m: HashMap<String, Vec<String>> });
native_struct!(SO { o: Option<S2>, p: Option<E> });
native_tuple_struct!(T2(0: String, 1: S2));
native_struct!(UnitLike {});
native_struct!(Z { a: (), b: String, c: UnitLike, d: () });
native_struct!(Tree { name: String, kids: Vec<Tree> });
native_struct!(Arr { a: [String; 2], r: Arc<String>, t: (String, u8) });
native_struct!(Big {
    f0: u8, f1: String, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8,
    f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8,
    f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8,
    f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8,
    f32: u8, f33: u8, f34: u8, f35: u8, f36: u8, f37: u8, f38: u8, f39: u8,
    f40: u8, f41: u8, f42: u8, f43: u8, f44: u8, f45: u8, f46: u8, f47: u8,
    f48: u8, f49: u8, f50: u8, f51: u8, f52: u8, f53: u8, f54: u8, f55: u8,
    f56: u8, f57: u8, f58: u8, f59: u8, f60: u8, f61: u8, f62: u8, f63: String,
});

/// Roots for builder histories.
pub fn roots() -> Vec<&'static Ty> {
    vec![
        S2::ty(),
        SD::ty(),
        N2::ty(),
        Deep::ty(),
        E::ty(),
        EC::ty(),
        EI::ty(),
        EU::ty(),
        Eu16::ty(),
        Eu32::ty(),
        Eu64::ty(),
        Eusize::ty(),
        Ei8::ty(),
        Ei32::ty(),
        Ei64::ty(),
        Eisize::ty(),
        SE::ty(),
        SC::ty(),
        SO::ty(),
        T2::ty(),
        Z::ty(),
        Tree::ty(),
        Arr::ty(),
        <Vec<String>>::ty(),
        <Vec<S2>>::ty(),
        <Vec<E>>::ty(),
        <Vec<Vec<String>>>::ty(),
        <HashMap<String, String>>::ty(),
        <HashMap<String, S2>>::ty(),
        <HashMap<u8, Option<String>>>::ty(),
        <BTreeMap<String, Vec<String>>>::ty(),
        <Option<String>>::ty(),
        <Option<S2>>::ty(),
        <Option<Option<String>>>::ty(),
        <Option<E>>::ty(),
        <(String, S2)>::ty(),
        <[String; 2]>::ty(),
        <Arc<String>>::ty(),
        <Vec<Option<E>>>::ty(),
        <HashMap<String, HashMap<String, E>>>::ty(),
        String::ty(),
        u32::ty(),
    ]
}

/// Types of values offered in misuse probes, besides those of the root.
pub fn foreign() -> Vec<&'static Ty> {
    vec![
        String::ty(),
        u8::ty(),
        u32::ty(),
        i64::ty(),
        bool::ty(),
        f64::ty(),
        <()>::ty(),
        <Vec<String>>::ty(),
        <Option<String>>::ty(),
        <Option<u8>>::ty(),
        <Arc<String>>::ty(),
        <HashMap<String, String>>::ty(),
        S2::ty(),
        Inner0::ty(),
        E::ty(),
    ]
}

/// root, then what it is made of, then foreign types
pub fn type_table(root: &'static Ty) -> &'static [&'static Ty] {
    let mut v = root.closure();
    for t in foreign() {
        if !v.iter().any(|x| *x == t) {
            v.push(t);
        }
    }
    Box::leak(v.into_boxed_slice())
}
