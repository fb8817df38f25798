//! Exhaustive bounded exploration harness for facet.
pub mod alloc;
pub mod domain;
pub mod fmt;
pub mod json;
pub mod jsonfault;
pub mod jsongen;
pub mod attrs;
pub mod blame;
pub mod ktypes;
pub mod layout;
pub mod msgpack;
pub mod native;
pub mod ops;
pub mod peekcheck;
pub mod pretty;
pub mod progs;
pub mod runner;
pub mod toml;
pub mod yaml;
pub mod form;
pub mod universe;
pub mod wipmodel;
pub mod wiprun;
pub use runner::*;
/// the shape as this crate sees it
#[inline(never)]
pub fn shape_of<T: facet::Facet>() -> &'static facet::Shape {
    T::SHAPE
}
