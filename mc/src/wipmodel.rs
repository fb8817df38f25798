//! Reference model of the builder (`Wip`): what each operation means, without pointers.
//! `Model::apply` is the specification; `exec` performs the same operation on the real thing.
use crate::native::*;
use facet_reflect::{FrameMode, ReflectError, Wip};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Prim {
    Put(usize, Val), // index into the type table
    /// a clone of a borrowed value
    PutPeek(usize, Val),
    Parse(String),
    Default,
    FromFn,
    Field(usize),
    FieldNamed(String),
    Variant(usize),
    VariantNamed(String),
    BeginPush,
    EmptyList,
    Push,
    BeginMap,
    EmptyMap,
    PushKey,
    PushVal,
    PushSome,
    PopNone,
    Pop,
    FillDefault,
}

/// What is stored at a place.
#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Unset,
    Full(Val),
    Fields(Vec<St>),
    Variant(usize, Vec<St>),
}
impl St {
    pub fn complete(&self) -> Option<Val> {
        match self {
            St::Unset => None,
            St::Full(v) => Some(v.clone()),
            St::Fields(f) => f.iter().map(|s| s.complete()).collect::<Option<Vec<_>>>().map(Val::Struct),
            St::Variant(i, f) => f.iter().map(|s| s.complete()).collect::<Option<Vec<_>>>().map(|f| Val::Enum(*i, f)),
        }
    }
    pub fn is_complete(&self) -> bool {
        match self {
            St::Unset => false,
            St::Full(_) => true,
            St::Fields(f) | St::Variant(_, f) => f.iter().all(|s| s.is_complete()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Root,
    Field(usize),
    Elem,
    Key,
    Value,
    Some,
    None,
}

#[derive(Clone)]
pub struct Frame {
    pub ty: &'static Ty,
    pub mode: Mode,
    pub st: St,
}
impl Frame {
    fn new(ty: &'static Ty, mode: Mode, st: St) -> Frame {
        // entering a struct makes its fields individually settable
        let st = match (st, &ty.kind) {
            (St::Unset, Kind::Struct(f)) => St::Fields(vec![St::Unset; f.len()]),
            (s, _) => s,
        };
        Frame { ty, mode, st }
    }
    pub fn complete(&self) -> bool {
        self.mode == Mode::None || self.st.is_complete()
    }
    pub fn variant(&self) -> Option<usize> {
        match &self.st {
            St::Full(Val::Enum(i, _)) => Some(*i),
            St::Variant(i, _) => Some(*i),
            _ => None,
        }
    }
    fn fields_mut(&mut self) -> &mut Vec<St> {
        if let St::Full(v) = &self.st {
            self.st = match v.clone() {
                Val::Struct(f) => St::Fields(f.into_iter().map(St::Full).collect()),
                Val::Enum(i, f) => St::Variant(i, f.into_iter().map(St::Full).collect()),
                v => panic!("no fields in {v:?}"),
            };
        }
        match &mut self.st {
            St::Fields(f) | St::Variant(_, f) => f,
            s => panic!("no fields in {s:?}"),
        }
    }
    pub fn field_set(&self, i: usize) -> Option<bool> {
        if !self.ty.is_struct() && !self.ty.is_enum() {
            return None;
        }
        match &self.st {
            St::Full(Val::Struct(f)) | St::Full(Val::Enum(_, f)) => (i < f.len()).then_some(true),
            St::Fields(f) | St::Variant(_, f) => f.get(i).map(|s| s.is_complete()),
            _ => None,
        }
    }
}

#[derive(Clone)]
pub struct Model {
    pub types: &'static [&'static Ty],
    pub frames: Vec<Frame>,
    pub root: Option<Frame>,
}

impl Model {
    pub fn new(root: &'static Ty, types: &'static [&'static Ty]) -> Model {
        Model { types, frames: vec![Frame::new(root, Mode::Root, St::Unset)], root: None }
    }
    pub fn top(&self) -> Option<&Frame> {
        self.frames.last()
    }
    /// Performs the operation; false: it must be refused (and the builder is gone).
    pub fn apply(&mut self, p: &Prim) -> bool {
        if let Prim::Pop = p {
            return self.pop();
        }
        let n = self.frames.len();
        let Some(top) = self.frames.last_mut() else { return false };
        let ty = top.ty;
        if let Prim::PopNone = p {
            if top.mode != Mode::Some || top.complete() {
                return false;
            }
            self.frames.pop();
            self.frames[n - 2].st = St::Full(Val::None);
            self.frames.push(Frame::new(ty, Mode::None, St::Unset));
            return true;
        }
        if let Prim::PushVal = p {
            if top.mode != Mode::Key || !top.complete() {
                return false;
            }
            let Kind::Map(_, v) = self.frames[n - 2].ty.kind else { unreachable!() };
            self.frames.push(Frame::new(v(), Mode::Value, St::Unset));
            return true;
        }
        if top.mode == Mode::None {
            return false;
        }
        match p {
            Prim::Put(t, v) | Prim::PutPeek(t, v) => {
                let t = self.types[*t];
                if t == ty {
                    top.st = St::Full(v.clone());
                    true
                } else if let Kind::Option(i) = ty.kind {
                    if i() == t {
                        top.st = St::Full(Val::Some(Box::new(v.clone())));
                        true
                    } else {
                        false
                    }
                } else {
                    false
                }
            }
            Prim::Parse(s) => match ty.parse.and_then(|f| f(s)) {
                Some(v) => {
                    top.st = St::Full(v);
                    true
                }
                None => false,
            },
            Prim::Default | Prim::FromFn => match ty.default {
                Some(d) => {
                    top.st = St::Full(d());
                    true
                }
                None => false,
            },
            Prim::FillDefault => {
                let (Some(d), true) = (ty.default, ty.is_struct()) else { return false };
                let Val::Struct(d) = d() else { return false };
                for (s, d) in top.fields_mut().iter_mut().zip(d) {
                    if !s.is_complete() {
                        *s = St::Full(d);
                    }
                }
                true
            }
            Prim::Field(i) => {
                let fs = match (&ty.kind, top.variant()) {
                    (Kind::Struct(f), _) => f,
                    (Kind::Enum(v), Some(k)) => &v[k].1,
                    _ => return false,
                };
                let Some((_, t)) = fs.get(*i) else { return false };
                let st = top.fields_mut()[*i].clone();
                self.frames.push(Frame::new(t(), Mode::Field(*i), st));
                true
            }
            Prim::FieldNamed(s) => {
                let fs = match (&ty.kind, top.variant()) {
                    (Kind::Struct(f), _) => f,
                    (Kind::Enum(v), Some(k)) => &v[k].1,
                    _ => return false,
                };
                match fs.iter().position(|f| f.0 == s) {
                    Some(i) => self.apply(&Prim::Field(i)),
                    None => false,
                }
            }
            Prim::Variant(i) => {
                let Kind::Enum(v) = &ty.kind else { return false };
                let Some(v) = v.get(*i) else { return false };
                top.st = St::Variant(*i, vec![St::Unset; v.1.len()]);
                true
            }
            Prim::VariantNamed(s) => {
                let Kind::Enum(v) = &ty.kind else { return false };
                match v.iter().position(|f| f.0 == s) {
                    Some(i) => self.apply(&Prim::Variant(i)),
                    None => false,
                }
            }
            Prim::BeginPush | Prim::EmptyList | Prim::Push => {
                let Kind::List(t) = ty.kind else { return false };
                if !top.st.is_complete() || matches!(p, Prim::EmptyList) {
                    top.st = St::Full(Val::List(vec![]));
                }
                if let Prim::Push = p {
                    self.frames.push(Frame::new(t(), Mode::Elem, St::Unset));
                }
                true
            }
            Prim::BeginMap | Prim::EmptyMap | Prim::PushKey => {
                let Kind::Map(t, _) = ty.kind else { return false };
                if !top.st.is_complete() || matches!(p, Prim::EmptyMap) {
                    top.st = St::Full(Val::Map(BTreeMap::new()));
                }
                if let Prim::PushKey = p {
                    self.frames.push(Frame::new(t(), Mode::Key, St::Unset));
                }
                true
            }
            Prim::PushSome => {
                let Kind::Option(t) = ty.kind else { return false };
                self.frames.push(Frame::new(t(), Mode::Some, St::Unset));
                true
            }
            Prim::Pop | Prim::PopNone | Prim::PushVal => unreachable!(),
        }
    }
    fn pop(&mut self) -> bool {
        let n = self.frames.len();
        if n == 0 {
            return false;
        }
        if n == 1 {
            self.root = self.frames.pop();
            return true;
        }
        let top = self.frames.last().unwrap();
        match top.mode {
            Mode::None => {
                self.frames.pop();
                return true;
            }
            Mode::Root => unreachable!(),
            Mode::Field(i) => {
                let f = self.frames.pop().unwrap();
                self.frames[n - 2].fields_mut()[i] = f.st;
                return true;
            }
            _ => {}
        }
        let Some(v) = top.st.complete() else { return false };
        match top.mode {
            Mode::Elem => {
                self.frames.pop();
                let St::Full(Val::List(l)) = &mut self.frames[n - 2].st else { unreachable!() };
                l.push(v);
            }
            Mode::Key => return false,
            Mode::Value => {
                self.frames.pop();
                let k = self.frames.pop().unwrap().st.complete().unwrap();
                let St::Full(Val::Map(m)) = &mut self.frames[n - 3].st else { unreachable!() };
                m.insert(k, v);
            }
            Mode::Some => {
                self.frames.pop();
                self.frames[n - 2].st = St::Full(Val::Some(Box::new(v)));
            }
            _ => unreachable!(),
        }
        true
    }
    /// What `build` must return.
    pub fn build(&self) -> Option<Val> {
        let mut m = self.clone();
        while !m.frames.is_empty() {
            if !m.pop() {
                return None;
            }
        }
        m.root.unwrap().st.complete()
    }
    pub fn path(&self) -> String {
        let mut s = String::from("$");
        for (i, f) in self.frames.iter().enumerate().skip(1) {
            match f.mode {
                Mode::Root => {}
                Mode::Field(k) => {
                    let p = &self.frames[i - 1];
                    s.push('.');
                    s.push_str(p.ty.fields(p.variant())[k].0);
                }
                Mode::Elem => {
                    let St::Full(Val::List(l)) = &self.frames[i - 1].st else { unreachable!() };
                    s.push_str(&format!("[{}]", l.len()));
                }
                Mode::Key => s.push_str(".key"),
                Mode::Value => s.push_str(".value"),
                Mode::Some => s.push_str(".some"),
                Mode::None => s.push_str(".none"),
            }
        }
        s
    }
}

unsafe fn default_dip(ty: &Ty) -> Option<facet_core::DefaultInPlaceFn> {
    (ty.shape)().vtable.default_in_place
}

/// Performs the operation on a real builder.
pub fn exec<'a>(w: Wip<'a>, p: &Prim, types: &[&'static Ty]) -> Result<Wip<'a>, ReflectError> {
    match p {
        Prim::Put(t, v) => (types[*t].put)(w, v),
        Prim::PutPeek(t, v) => (types[*t].put_peek)(w, v),
        Prim::Parse(s) => w.parse(s),
        Prim::Default => w.put_default(),
        Prim::FromFn => {
            let f = w.shape().vtable.default_in_place;
            match f {
                Some(f) => w.put_from_fn(f),
                None => w.put_default(),
            }
        }
        Prim::Field(i) => w.field(*i),
        Prim::FieldNamed(s) => w.field_named(s),
        Prim::Variant(i) => w.variant(*i),
        Prim::VariantNamed(s) => w.variant_named(s),
        Prim::BeginPush => w.begin_pushback(),
        Prim::EmptyList => w.put_empty_list(),
        Prim::Push => w.push(),
        Prim::BeginMap => w.begin_map_insert(),
        Prim::EmptyMap => w.put_empty_map(),
        Prim::PushKey => w.push_map_key(),
        Prim::PushVal => w.push_map_value(),
        Prim::PushSome => w.push_some(),
        Prim::PopNone => w.pop_some_push_none(),
        Prim::Pop => w.pop(),
        Prim::FillDefault => w.fill_unset_fields_from_default(),
    }
}

/// Does the shape offer default/parse? (offering is optional, C01 checks that it's only done rightly)
pub fn supported(ty: &Ty, p: &Prim) -> bool {
    match p {
        Prim::Default | Prim::FromFn | Prim::FillDefault => unsafe { default_dip(ty) }.is_some(),
        Prim::Parse(_) => (ty.shape)().vtable.parse.is_some(),
        Prim::PutPeek(..) => (ty.shape)().vtable.clone_into.is_some(),
        _ => true,
    }
}

/// Everything observable without consuming the builder, compared with the model.
pub fn observe(w: &Wip, m: &Model) -> Result<(), String> {
    let n = w.frames_count();
    if n != m.frames.len() {
        return Err(format!("frames_count is {n}, expected {}", m.frames.len()));
    }
    let f = m.frames.last().or(m.root.as_ref()).unwrap();
    if !std::ptr::eq(w.shape(), (f.ty.shape)()) && w.shape() != (f.ty.shape)() {
        return Err(format!("shape() is {}, expected {}", w.shape(), f.ty.name));
    }
    let mode_ok = matches!(
        (w.mode(), f.mode),
        (FrameMode::Root, Mode::Root)
            | (FrameMode::Field, Mode::Field(_))
            | (FrameMode::ListElement, Mode::Elem)
            | (FrameMode::MapKey, Mode::Key)
            | (FrameMode::MapValue { .. }, Mode::Value)
            | (FrameMode::OptionSome, Mode::Some)
            | (FrameMode::OptionNone, Mode::None)
    );
    if !mode_ok {
        return Err(format!("mode() is {:?}, expected {:?}", w.mode(), f.mode));
    }
    let Some(f) = m.frames.last() else {
        return Ok(());
    };
    if w.in_option() != (f.mode == Mode::Some) {
        return Err(format!("in_option() is {}", w.in_option()));
    }
    let same = [
        w.current_is_type::<String>() == (f.ty.name == "String"),
        w.current_is_type::<u32>() == (f.ty.name == "u32"),
        w.current_is_type::<Option<String>>() == (f.ty.id == std::any::TypeId::of::<Option<String>>()),
        w.current_is_type::<crate::universe::S2>() == (f.ty.id == std::any::TypeId::of::<crate::universe::S2>()),
        w.current_is_type::<Vec<String>>() == (f.ty.id == std::any::TypeId::of::<Vec<String>>()),
    ];
    if same.contains(&false) {
        return Err(format!("current_is_type() is wrong on {}: {same:?}", f.ty.name));
    }
    let p = w.path();
    let e = crate::untracked(|| m.path());
    let bad = p != e;
    if bad {
        return Err(crate::untracked(|| format!("path() is {p:?}, expected {e:?}")));
    }
    crate::untracked(move || drop(e));
    let in_none = f.mode == Mode::None;
    // variant
    let v = w.selected_variant();
    let ev = if in_none { None } else { f.variant() };
    let en = match (&f.ty.kind, ev) {
        (Kind::Enum(vs), Some(i)) => Some(vs[i].0),
        _ => None,
    };
    if v.map(|v| v.name) != en {
        return Err(format!("selected_variant() is {:?}, expected {:?}", v.map(|v| v.name), en));
    }
    if let Kind::Enum(vs) = &f.ty.kind {
        for (i, (name, _)) in vs.iter().enumerate() {
            match w.find_variant(name) {
                Some((k, v)) if k == i && v.name == *name => {}
                o => return Err(format!("find_variant({name}) is {:?}", o.map(|o| (o.0, o.1.name)))),
            }
        }
        if w.find_variant("no such variant").is_some() {
            return Err("find_variant(unknown) found something".into());
        }
    }
    // fields
    let fs = f.ty.fields(ev);
    for i in 0..fs.len() + 1 {
        let got = w.is_field_set(i).ok();
        let exp = if in_none {
            if i < fs.len() { Some(false) } else { None }
        } else {
            f.field_set(i)
        };
        if got != exp {
            return Err(format!("is_field_set({i}) is {got:?}, expected {exp:?}"));
        }
    }
    for (i, (name, _)) in fs.iter().enumerate() {
        if w.field_index(name) != Some(i) {
            return Err(format!("field_index({name}) is {:?}, expected {i}", w.field_index(name)));
        }
    }
    if w.field_index("no such field").is_some() {
        return Err("field_index(unknown) found something".into());
    }
    // element/key shapes
    let es = w.element_shape().ok();
    let ees = if let Kind::List(t) = f.ty.kind { Some((t().shape)()) } else { None };
    if es != ees {
        return Err(format!("element_shape() is {es:?}"));
    }
    let es = w.key_shape().ok();
    let ees = if let Kind::Map(t, _) = f.ty.kind { Some((t().shape)()) } else { None };
    if es != ees {
        return Err(format!("key_shape() is {es:?}"));
    }
    Ok(())
}

fn tidx(types: &[&'static Ty], t: &'static Ty) -> usize {
    types.iter().position(|x| *x == t).unwrap()
}

/// One step of a history (possibly several operations in a row).
pub type Step = Vec<Prim>;

/// The steps worth trying in a state. `compound`: coarser steps, to get deeper.
pub fn steps(m: &Model, k: u64, compound: bool) -> Vec<Step> {
    let mut out: Vec<Step> = vec![];
    let Some(f) = m.frames.last() else { return out };
    let ty = f.ty;
    let types = m.types;
    let puts = |t: &'static Ty, max: usize, out: &mut Vec<Val>| {
        out.extend((t.gens)(k, max));
    };
    if f.mode == Mode::None {
        out.push(vec![Prim::Pop]);
        return out;
    }
    // values for the current place
    let mut vals = vec![];
    if f.mode == Mode::Key && ty.name == "String" {
        // keys that collide
        vals.push(Val::S("key".into()));
        if !compound {
            vals.push(Val::S(format!("key{k}")));
        }
    } else {
        puts(ty, if compound { 2 } else { 4 }, &mut vals);
    }
    for v in vals {
        out.push(vec![Prim::Put(tidx(types, ty), v)]);
    }
    if !compound && supported(ty, &Prim::PutPeek(0, Val::Unit)) {
        for v in (ty.gens)(k, 1) {
            out.push(vec![Prim::PutPeek(tidx(types, ty), v)]);
        }
    }
    if let Kind::Option(i) = ty.kind {
        let mut vals = vec![];
        puts(i(), 1, &mut vals);
        for v in vals {
            out.push(vec![Prim::Put(tidx(types, i()), v)]);
        }
        out.push(vec![Prim::PushSome]);
    }
    if ty.default.is_some() && supported(ty, &Prim::Default) {
        if !compound || !matches!(ty.kind, Kind::Leaf) {
            out.push(vec![if k % 2 == 0 { Prim::Default } else { Prim::FromFn }]);
        }
    }
    if ty.default.is_some() && ty.is_struct() && supported(ty, &Prim::FillDefault) {
        out.push(vec![Prim::FillDefault]);
    }
    if !compound && ty.parse.is_some() && supported(ty, &Prim::Parse(String::new())) {
        let s = match ty.name.as_str() {
            "bool" => "true".to_string(),
            "char" => "x".to_string(),
            _ => format!("{}", k + 1),
        };
        out.push(vec![Prim::Parse(s)]);
    }
    match &ty.kind {
        Kind::Struct(fs) => {
            for i in 0..fs.len() {
                field_steps(m, i, fs[i], k, compound, &mut out);
            }
        }
        Kind::Enum(vs) => {
            for i in 0..vs.len() {
                out.push(vec![if (k + i as u64) % 2 == 0 {
                    Prim::Variant(i)
                } else {
                    Prim::VariantNamed(vs[i].0.into())
                }]);
            }
            if let Some(v) = f.variant() {
                for i in 0..vs[v].1.len() {
                    field_steps(m, i, vs[v].1[i], k, compound, &mut out);
                }
            }
        }
        Kind::List(t) => {
            out.push(vec![Prim::Push]);
            if compound {
                let mut vals = vec![];
                puts(t(), 1, &mut vals);
                for v in vals {
                    out.push(vec![Prim::Push, Prim::Put(tidx(types, t()), v), Prim::Pop]);
                }
            } else {
                out.push(vec![Prim::BeginPush]);
                out.push(vec![Prim::EmptyList]);
            }
        }
        Kind::Map(kt, vt) => {
            out.push(vec![Prim::PushKey]);
            if compound {
                let mut vals = vec![];
                puts(vt(), 1, &mut vals);
                for v in vals {
                    let key = if kt().name == "String" { Val::S("key".into()) } else { (kt().gens)(0, 1).remove(0) };
                    out.push(vec![
                        Prim::PushKey,
                        Prim::Put(tidx(types, kt()), key),
                        Prim::PushVal,
                        Prim::Put(tidx(types, vt()), v),
                        Prim::Pop,
                    ]);
                }
            } else {
                out.push(vec![Prim::BeginMap]);
                out.push(vec![Prim::EmptyMap]);
            }
        }
        _ => {}
    }
    if f.mode == Mode::Some && !f.complete() {
        out.push(vec![Prim::PopNone]);
    }
    if f.mode == Mode::Key && f.complete() {
        out.push(vec![Prim::PushVal]);
    }
    let mut m2 = m.clone();
    if m2.apply(&Prim::Pop) {
        out.push(vec![Prim::Pop]);
    }
    out
}
fn field_steps(m: &Model, i: usize, f: (&'static str, TyFn), k: u64, compound: bool, out: &mut Vec<Step>) {
    let t = f.1();
    let enter = if (k + i as u64) % 2 == 0 { Prim::Field(i) } else { Prim::FieldNamed(f.0.into()) };
    if !compound || !matches!(t.kind, Kind::Leaf | Kind::Array(..) | Kind::Pointer(_)) {
        out.push(vec![enter.clone()]);
    }
    if compound {
        for v in (t.gens)(k, 1) {
            out.push(vec![enter.clone(), Prim::Put(tidx(m.types, t), v), Prim::Pop]);
        }
    }
}

/// Operations that must be refused in this state (and some that must not: the model decides).
pub fn probes(m: &Model) -> Vec<Prim> {
    let mut out = vec![
        Prim::Pop,
        Prim::PopNone,
        Prim::PushVal,
        Prim::PushKey,
        Prim::BeginMap,
        Prim::EmptyMap,
        Prim::Push,
        Prim::BeginPush,
        Prim::EmptyList,
        Prim::PushSome,
        Prim::Default,
        Prim::FillDefault,
        Prim::Parse("\u{1}bad".into()),
        Prim::Field(0),
        Prim::Field(usize::MAX),
        Prim::Field(64),
        Prim::FieldNamed("no such field".into()),
        Prim::FieldNamed(String::new()),
        Prim::Variant(0),
        Prim::Variant(usize::MAX),
        Prim::VariantNamed("NoSuchVariant".into()),
    ];
    for (i, t) in m.types.iter().enumerate() {
        for v in (t.gens)(90, 1) {
            if supported(t, &Prim::PutPeek(i, Val::Unit)) {
                out.push(Prim::PutPeek(i, v.clone()));
            }
            out.push(Prim::Put(i, v));
        }
    }
    if let Some(f) = m.top() {
        let n = f.ty.fields(f.variant()).len();
        out.push(Prim::Field(n));
        if let Kind::Enum(v) = &f.ty.kind {
            out.push(Prim::Variant(v.len()));
            // a field of another variant
            for (_, fs) in v {
                for (name, _) in fs {
                    out.push(Prim::FieldNamed(name.to_string()));
                }
            }
        }
    }
    out.retain(|p| match m.top() {
        Some(f) => supported(f.ty, p) || f.ty.default.is_none() && matches!(p, Prim::Default | Prim::FillDefault),
        None => true,
    });
    out
}

/// Number of histories up to `depth` steps, stopping at `cap`.
pub fn count(m: &Model, k: u64, depth: usize, compound: bool, cap: u64) -> u64 {
    let mut n = 1;
    if depth == 0 {
        return n;
    }
    for s in steps(m, k, compound) {
        let mut m2 = m.clone();
        if s.iter().all(|p| m2.apply(p)) {
            n += count(&m2, k + 1, depth - 1, compound, cap.saturating_sub(n));
        }
        if n > cap {
            return n;
        }
    }
    n
}

/// Visit all histories up to `depth` steps.
pub fn explore(
    m: &Model,
    hist: &mut Vec<Prim>,
    k: u64,
    depth: usize,
    compound: bool,
    f: &mut dyn FnMut(&Model, &[Prim]),
) {
    f(m, hist);
    if depth == 0 {
        return;
    }
    for s in steps(m, k, compound) {
        let mut m2 = m.clone();
        if s.iter().all(|p| m2.apply(p)) {
            let n = hist.len();
            hist.extend(s);
            explore(&m2, hist, k + 1, depth - 1, compound, f);
            hist.truncate(n);
        }
    }
}
