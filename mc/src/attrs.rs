//! What the programs generated by C04 call: compares the attributes and docs of a shape with what
//! was written.
use crate::layout::R;
use facet::{Def, Facet, Field, FieldAttribute, FieldFlags, ShapeAttribute};
use facet_core::{DefaultInPlaceFn, PtrUninit};
use std::mem::MaybeUninit;

pub enum A {
    Sensitive,
    Rename(&'static str),
    Default,
    Fn(fn(DefaultInPlaceFn) -> Result<(), String>),
    Text(&'static str),
}
pub struct F {
    pub name: &'static str,
    pub attrs: &'static [A],
    pub doc: &'static [&'static str],
    pub shape: fn() -> &'static facet::Shape,
}
/// fields of a struct (variant "") or a variant
pub struct I {
    pub variant: &'static str,
    pub doc: &'static [&'static str],
    pub fields: &'static [F],
}

pub fn same_default<T: PartialEq + std::fmt::Debug>(f: DefaultInPlaceFn, exp: T) -> Result<(), String> {
    let mut m = MaybeUninit::<T>::uninit();
    let x = unsafe {
        f(PtrUninit::new(m.as_mut_ptr()));
        m.assume_init()
    };
    if x == exp { Ok(()) } else { Err(format!("default is {x:?} instead of {exp:?}")) }
}
/// spaces between tokens are not significant
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn field(f: &Field, e: &F) -> R {
    let at = |m: String| Err(format!("{}: {m}", e.name));
    if f.name != e.name {
        return at(format!("called {}", f.name));
    }
    let sensitive = e.attrs.iter().any(|a| matches!(a, A::Sensitive));
    let flags = if sensitive { FieldFlags::SENSITIVE } else { FieldFlags::EMPTY };
    if f.flags != flags {
        return at(format!("flags {:?} instead of {flags:?}", f.flags));
    }
    if f.attributes.len() != e.attrs.len() {
        return at(format!("{} attributes instead of {}: {:?}", f.attributes.len(), e.attrs.len(), f.attributes));
    }
    for (g, w) in f.attributes.iter().zip(e.attrs) {
        let ok = match (g, w) {
            (FieldAttribute::Sensitive, A::Sensitive) => true,
            (FieldAttribute::Rename(a), A::Rename(b)) => a == b,
            (FieldAttribute::Default(None), A::Default) => true,
            (FieldAttribute::Default(Some(g)), A::Fn(w)) => {
                w(*g).map_err(|m| format!("{}: {m}", e.name))?;
                true
            }
            (FieldAttribute::Arbitrary(a), A::Text(b)) => squeeze(a) == squeeze(b),
            _ => false,
        };
        if !ok {
            return at(format!("wrong attribute {g:?}"));
        }
    }
    if f.doc != e.doc {
        return at(format!("doc {:?} instead of {:?}", f.doc, e.doc));
    }
    if f.shape() != (e.shape)() {
        return at(format!("shape {} instead of {}", f.shape(), (e.shape)()));
    }
    Ok(4 + f.attributes.len() as u64)
}
/// `attrs`: names of the container's attributes
pub fn check<T: Facet>(attrs: &[&str], doc: &[&str], items: &[I]) -> R {
    let s = T::SHAPE;
    let got: Vec<String> = s
        .attributes
        .iter()
        .map(|a| match a {
            ShapeAttribute::Arbitrary(t) => format!("arbitrary {t}"),
            ShapeAttribute::DenyUnknownFields => "deny_unknown_fields".into(),
            ShapeAttribute::Default => "default".into(),
            a => format!("{a:?}").to_lowercase(),
        })
        .collect();
    if got != attrs {
        return Err(format!("container attributes {got:?} instead of {attrs:?}"));
    }
    if s.doc != doc {
        return Err(format!("container doc {:?} instead of {doc:?}", s.doc));
    }
    let mut n = 2;
    let mut all = |fields: &[Field], i: &I| -> Result<(), String> {
        if fields.len() != i.fields.len() {
            return Err(format!("{} fields instead of {}", fields.len(), i.fields.len()));
        }
        for (f, e) in fields.iter().zip(i.fields) {
            n += field(f, e)?;
        }
        Ok(())
    };
    match s.def {
        Def::Struct(d) => all(d.fields, &items[0])?,
        Def::Enum(d) => {
            if d.variants.len() != items.len() {
                return Err("other number of variants".into());
            }
            for (v, i) in d.variants.iter().zip(items) {
                if v.name != i.variant {
                    return Err(format!("variant {} instead of {}", v.name, i.variant));
                }
                if v.doc != i.doc {
                    return Err(format!("variant {}: doc {:?} instead of {:?}", v.name, v.doc, i.doc));
                }
                all(v.data.fields, i).map_err(|m| format!("variant {}: {m}", v.name))?;
            }
        }
        _ => return Err("neither struct nor enum".into()),
    }
    Ok(n)
}
