//! The universe of types whose values are read (K01) and rebuilt (W06) in full.
use crate::native::*;
use crate::universe::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

crate::native_struct!(Mixed { a: u8, b: u64, c: u16, d: String, e: bool, f: u128, g: char, h: f32, i: i8, j: f64 });
crate::native_struct!(#[repr(C)] MixedC { a: u8, b: u64, c: u16, d: String, e: bool, f: u128, g: char, h: f32, i: i8, j: f64 });
crate::native_tuple_struct!(MixedT(0: u8, 1: u64, 2: u16, 3: String, 4: bool));
crate::native_enum!(#[repr(u8)] EMix { A(_0: u8, _1: u64, _2: u16, _3: String), B { x: u8, y: u128, z: Option<u8> }, C(_0: EMix2), D });
crate::native_enum!(#[repr(u16)] EMix2 { P(_0: u64), Q(_0: u8), R { s: String, t: u8 } = 300, S });
crate::native_enum!(#[repr(u8)] Many {
    V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10 = 100, V11, V12(_0: u8) = 254, V13(_0: u16, _1: u8) });
crate::native_struct!(AllOpt { a: Option<u8>, b: Option<bool>, c: Option<String>, d: Option<u64>, e: Option<()>, f: Option<Option<u8>>, g: Option<char> });
crate::native_struct!(Conts { v: Vec<u16>, w: Vec<Vec<u8>>, m: BTreeMap<u8, String>, n: HashMap<String, u64>, a: [u16; 3], p: Arc<S2> });
crate::native_struct!(Gen3 { a: (u8, u64, u16), b: [(u8, u32); 2], c: Arc<Vec<(u8, String)>> });

crate::native_struct!(#[repr(align(64))] Aligned { a: u8, b: String });
crate::native_struct!(#[repr(C)] ZeroAligned { a: u8, z: [u64; 0], b: u8, c: Option<Aligned> });

/// The types, each once.
pub fn types() -> Vec<&'static Ty> {
    let mut v = roots();
    v.extend([
        u8::ty(), u16::ty(), u64::ty(), u128::ty(), usize::ty(), i8::ty(), i16::ty(), i32::ty(), i64::ty(), i128::ty(),
        isize::ty(), f32::ty(), f64::ty(), bool::ty(), char::ty(),
        Mixed::ty(), MixedC::ty(), MixedT::ty(), EMix::ty(), EMix2::ty(), Many::ty(), crate::fmt::WideE::ty(), crate::fmt::Tup12::ty(), <Vec<crate::fmt::WideE>>::ty(), <[u16; 70]>::ty(), AllOpt::ty(), Conts::ty(), Gen3::ty(), Big::ty(),
        <[u8; 0]>::ty(), <[u64; 0]>::ty(), <[u128; 0]>::ty(), <[u8; 1]>::ty(), <[u16; 5]>::ty(), <[[u8; 2]; 3]>::ty(), <[String; 3]>::ty(), <[(u8, u16); 2]>::ty(),
        Aligned::ty(), ZeroAligned::ty(), <Vec<Aligned>>::ty(), <Option<Aligned>>::ty(), <BTreeMap<u8, Aligned>>::ty(), <HashMap<u8, ZeroAligned>>::ty(),
        <Vec<[u64; 0]>>::ty(), <Option<[u64; 0]>>::ty(), <BTreeMap<[u32; 0], [u64; 0]>>::ty(), <Vec<u8>>::ty(), <Vec<u16>>::ty(), <Vec<()>>::ty(), <Vec<(u8, u32)>>::ty(), <Vec<Option<u8>>>::ty(), <Vec<Mixed>>::ty(), <Vec<EMix>>::ty(), <Vec<[u8; 3]>>::ty(),
        <Vec<HashMap<String, u8>>>::ty(), <Vec<Vec<Vec<u8>>>>::ty(), <Vec<Arc<u16>>>::ty(),
        <HashMap<u8, u8>>::ty(), <HashMap<char, bool>>::ty(), <HashMap<i64, Vec<u8>>>::ty(), <HashMap<(u8, u8), u16>>::ty(),
        <BTreeMap<u8, u8>>::ty(), <BTreeMap<i64, Mixed>>::ty(), <BTreeMap<Option<u8>, String>>::ty(), <BTreeMap<Vec<u8>, u8>>::ty(),
        <BTreeMap<String, BTreeMap<u8, u8>>>::ty(), <BTreeMap<bool, EMix>>::ty(), <BTreeMap<[u8; 2], u8>>::ty(),
        <Option<u8>>::ty(), <Option<bool>>::ty(), <Option<char>>::ty(), <Option<u64>>::ty(), <Option<Vec<u8>>>::ty(), <Option<Option<Option<bool>>>>::ty(),
        <Option<Arc<u8>>>::ty(), <Option<(u8, u64)>>::ty(), <Option<Mixed>>::ty(), <Option<()>>::ty(), <Option<[u8; 2]>>::ty(),
        <Arc<u8>>::ty(), <Arc<Mixed>>::ty(), <Arc<Arc<u16>>>::ty(), <Arc<Vec<u8>>>::ty(), <Arc<Option<u8>>>::ty(), <Arc<EMix>>::ty(),
        <(u8,)>::ty(), <(u8, u64)>::ty(), <(u64, u8, u16)>::ty(), <(u8, String, u16, bool)>::ty(), <(u8, u16, u32, u64, u128)>::ty(),
        <(u8, u16, u8, u32, u8, u64)>::ty(), <(u8, u8, u8, u8, u8, u8, u8)>::ty(), <(u8, u16, u8, u16, u8, u16, u8, u16)>::ty(),
        <(u8, u64, u8, u64, u8, u64, u8, u64, u8)>::ty(), <(u8, u16, u32, u64, u8, u16, u32, u64, u8, u16)>::ty(),
        <(u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, String)>::ty(), <(u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, bool, char)>::ty(),
        <((u8, u16), (u32, (u8, String)))>::ty(), <(S2, E)>::ty(), <(Vec<u8>, Option<u8>)>::ty(),
    ]);
    let mut out: Vec<&'static Ty> = vec![];
    for t in v {
        if !out.contains(&t) {
            out.push(t)
        }
    }
    out
}
