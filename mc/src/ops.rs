//! What a type's own trait implementations do, found out at compile time for concrete types and
//! independently of facet's own way of finding it out.
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::str::FromStr;

/// Records the bytes hashed
#[derive(Default)]
pub struct Recorder(pub Vec<u8>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

pub struct Ops<T> {
    pub display: Option<fn(&T) -> String>,
    pub debug: Option<fn(&T) -> String>,
    /// the same with formatter options
    pub display_as: Option<fn(&T) -> [String; 8]>,
    pub debug_as: Option<fn(&T) -> [String; 8]>,
    pub eq: Option<fn(&T, &T) -> bool>,
    pub partial_ord: Option<fn(&T, &T) -> Option<Ordering>>,
    pub ord: Option<fn(&T, &T) -> Ordering>,
    pub hash: Option<fn(&T) -> Vec<u8>>,
    pub default: Option<fn() -> T>,
    pub clone: Option<fn(&T) -> T>,
    pub parse: Option<fn(&str) -> Option<T>>,
    /// Eq, Send, Sync, Copy, Unpin
    pub markers: [bool; 5],
}

pub struct P<T>(pub PhantomData<fn() -> T>);

macro_rules! probe {
    ($yes:ident, $no:ident, $m:ident, $ret:ty, ($($bound:tt)*), $val:expr) => {
        pub trait $yes<T> { fn $m(&self) -> Option<$ret>; }
        impl<T: $($bound)*> $yes<T> for P<T> { fn $m(&self) -> Option<$ret> { Some($val) } }
        pub trait $no<T> { fn $m(&self) -> Option<$ret>; }
        impl<T> $no<T> for &P<T> { fn $m(&self) -> Option<$ret> { None } }
    };
}
probe!(Y1, N1, p_display, fn(&T) -> String, (Display), |x| format!("{x}"));
probe!(Y2, N2, p_debug, fn(&T) -> String, (Debug), |x| format!("{x:?}"));
#[macro_export]
macro_rules! formats {
    (display $x:expr) => {
        [format!("{:#}", $x), format!("{:>7}", $x), format!("{:*<9}", $x), format!("{:^+6}", $x), format!("{:09}", $x),
         format!("{:.1}", $x), format!("{:-^12.3}", $x), format!("{:+#08.2}", $x)]
    };
    (debug $x:expr) => {
        [format!("{:#?}", $x), format!("{:>7?}", $x), format!("{:*<9?}", $x), format!("{:^+6?}", $x), format!("{:09?}", $x),
         format!("{:.1?}", $x), format!("{:02x?}", $x), format!("{:+#08.2X?}", $x)]
    };
}
probe!(V1, W1, p_display_as, fn(&T) -> [String; 8], (Display), |x| formats!(display x));
probe!(V2, W2, p_debug_as, fn(&T) -> [String; 8], (Debug), |x| formats!(debug x));
probe!(Y3, N3, p_eq, fn(&T, &T) -> bool, (PartialEq), |a, b| a == b);
probe!(Y4, N4, p_partial_ord, fn(&T, &T) -> Option<Ordering>, (PartialOrd), |a, b| a.partial_cmp(b));
probe!(Y5, N5, p_ord, fn(&T, &T) -> Ordering, (Ord), |a, b| a.cmp(b));
probe!(Y6, N6, p_hash, fn(&T) -> Vec<u8>, (Hash), |a| {
    let mut r = Recorder::default();
    a.hash(&mut r);
    r.0
});
probe!(Y7, N7, p_default, fn() -> T, (Default), || T::default());
probe!(Y8, N8, p_clone, fn(&T) -> T, (Clone), |x| x.clone());
probe!(Y9, N9, p_parse, fn(&str) -> Option<T>, (FromStr), |s| s.parse().ok());
probe!(Ya, Na, p_eqm, (), (Eq), ());
probe!(Yb, Nb, p_send, (), (Send), ());
probe!(Yc, Nc, p_sync, (), (Sync), ());
probe!(Yd, Nd, p_copy, (), (Copy), ());
probe!(Ye, Ne, p_unpin, (), (Unpin), ());
// only whether it is implemented
probe!(Z1, M1, q_display, (), (Display), ());
probe!(Z2, M2, q_debug, (), (Debug), ());
probe!(Z3, M3, q_eq, (), (PartialEq), ());
probe!(Z4, M4, q_partial_ord, (), (PartialOrd), ());
probe!(Z5, M5, q_ord, (), (Ord), ());
probe!(Z6, M6, q_hash, (), (Hash), ());
probe!(Z7, M7, q_default, (), (Default), ());
probe!(Z8, M8, q_clone, (), (Clone), ());
probe!(Z9, M9, q_parse, (), (FromStr), ());

/// Which operations (in the order of `Ops`) and markers a type implements.
#[macro_export]
macro_rules! implements {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::ops::*;
        let p = &P::<$t>(std::marker::PhantomData);
        (
            [
                p.q_display().is_some(),
                p.q_debug().is_some(),
                p.q_eq().is_some(),
                p.q_partial_ord().is_some(),
                p.q_ord().is_some(),
                p.q_hash().is_some(),
                p.q_default().is_some(),
                p.q_clone().is_some(),
                p.q_parse().is_some(),
            ],
            [
                p.p_eqm().is_some(),
                p.p_send().is_some(),
                p.p_sync().is_some(),
                p.p_copy().is_some(),
                p.p_unpin().is_some(),
            ],
        )
    }};
}

#[macro_export]
macro_rules! ops {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::ops::*;
        let p = &P::<$t>(std::marker::PhantomData);
        Ops::<$t> {
            display: p.p_display(),
            debug: p.p_debug(),
            display_as: p.p_display_as(),
            debug_as: p.p_debug_as(),
            eq: p.p_eq(),
            partial_ord: p.p_partial_ord(),
            ord: p.p_ord(),
            hash: p.p_hash(),
            default: p.p_default(),
            clone: p.p_clone(),
            parse: p.p_parse(),
            markers: [
                p.p_eqm().is_some(),
                p.p_send().is_some(),
                p.p_sync().is_some(),
                p.p_copy().is_some(),
                p.p_unpin().is_some(),
            ],
        }
    }};
}
