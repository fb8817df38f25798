use facet::Facet;
use facet_core::{Def, Opaque, PtrConst, PtrMut, PtrUninit, Shape, SmartPointerFlags};
use mc::native::*;
use mc::universe::*;
use mc::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};
use std::mem::MaybeUninit;
use std::sync::{Arc, Weak};

/// A key of which only a part counts: which of two equal keys a map keeps can be told.
#[derive(Facet, Clone, Debug)]
pub struct Pk {
    id: u8,
    tag: String,
}
impl PartialEq for Pk {
    fn eq(&self, o: &Pk) -> bool {
        self.id == o.id
    }
}
impl Eq for Pk {}
impl Hash for Pk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}
impl PartialOrd for Pk {
    fn partial_cmp(&self, o: &Pk) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Pk {
    fn cmp(&self, o: &Pk) -> std::cmp::Ordering {
        o.id.cmp(&self.id)
    }
}
impl Native for Pk {
    fn make(v: &Val) -> Self {
        let Val::Struct(f) = v else { panic!() };
        Pk { id: u8::make(&f[0]), tag: String::make(&f[1]) }
    }
    fn unmake(&self) -> Val {
        Val::Struct(vec![self.id.unmake(), self.tag.unmake()])
    }
    fn describe() -> Desc {
        desc("Pk", Kind::Struct(vec![("id", u8::ty), ("tag", String::ty)]))
    }
}

/// A hasher under which everything collides.
#[derive(Clone, Copy, Default, Facet, Debug)]
pub struct Collide {
    pad: [u64; 3],
}
pub struct Const7;
impl Hasher for Const7 {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for Collide {
    type Hasher = Const7;
    fn build_hasher(&self) -> Const7 {
        Const7
    }
}

macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(untracked(|| format!($($a)*))); } };
}

fn main() {
    mc::main(Check {
        id: "C02",
        level: "model_checking",
        rule: "all operation sequences through list, map, option and smart-pointer shapes up to the length given per group (pushes of 3 values to length 6 from 4 capacities; insertions of 3 keys (in 2 guises) x 2 values to length 4/5; replacements to length 4; 8 smart-pointer operations on 2+2 slots to depth 6/8), every array and slice index to length 4; after each operation the container, read natively, and every answer of the shape are compared with the native container, and allocations with the tracking allocator",
        assumptions: "std's containers are the reference",
        run,
    });
}

fn run(ctx: &mut Ctx) {
    let types: &[fn(&mut Ctx)] = &[
        lists::<u8>, lists::<String>, lists::<u128>, lists::<()>, lists::<Vec<u8>>, lists::<Option<String>>, lists::<Arc<String>>, lists::<S2>,
        lists::<E>, lists::<(u8, u64)>, lists::<[u16; 3]>, lists::<bool>, lists::<char>, lists::<HashMap<u8, String>>,
        options::<u8>, options::<bool>, options::<String>, options::<u128>, options::<()>, options::<Vec<u8>>, options::<Option<String>>,
        options::<Option<Option<bool>>>, options::<Arc<String>>, options::<S2>, options::<E>, options::<char>, options::<(u8, u64)>,
        options::<[String; 2]>, options::<BTreeMap<u8, String>>, options::<f64>,
    ];
    for f in types {
        f(ctx)
    }
    hash_maps::<u8, u8>(ctx);
    hash_maps::<String, String>(ctx);
    hash_maps::<Pk, String>(ctx);
    hash_maps::<(), u16>(ctx);
    hash_maps::<u8, ()>(ctx);
    hash_maps::<u64, Vec<String>>(ctx);
    hash_maps::<(u8, u64), E2>(ctx);
    btree_maps::<u8, u8>(ctx);
    btree_maps::<String, String>(ctx);
    btree_maps::<Pk, String>(ctx);
    btree_maps::<(), u16>(ctx);
    btree_maps::<u8, ()>(ctx);
    btree_maps::<Option<u8>, Vec<String>>(ctx);
    btree_maps::<(u8, u64), E2>(ctx);
    arrays(ctx);
    pointers::<String>(ctx);
    pointers::<u8>(ctx);
    pointers::<()>(ctx);
    pointers::<u128>(ctx);
    pointers::<Vec<String>>(ctx);
    pointers::<Arc<String>>(ctx);
    opaque_arc(ctx);
    non_null(ctx);
}
type E2 = Option<E>;

fn vals<T: Native>(n: usize) -> Vec<Val> {
    let mut out: Vec<Val> = vec![];
    for v in domain::values(T::ty(), 3, 3, 12).into_iter().chain((0..4).flat_map(|k| (T::ty().gens)(k, 2))) {
        if !out.contains(&v) {
            out.push(v)
        }
    }
    out.truncate(n);
    out
}
/// all sequences over 0..n up to length len, shortest first, only the maximal ones (every prefix
/// is checked on the way)
fn seqs(n: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    let mut s = vec![0; len];
    if n == 0 {
        return;
    }
    loop {
        f(&s);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            s[i] += 1;
            if s[i] < n {
                break;
            }
            s[i] = 0;
        }
    }
}
/// a value whose ownership is handed over
struct Handed<T>(MaybeUninit<T>);
impl<T> Handed<T> {
    fn new(t: T) -> Self {
        Handed(MaybeUninit::new(t))
    }
    fn ptr(&mut self) -> PtrMut<'static> {
        PtrMut::new(self.0.as_mut_ptr())
    }
}
fn drop_with(s: &'static Shape, p: PtrMut<'_>) -> Result<(), String> {
    let Some(d) = s.vtable.drop_in_place else { return Err(untracked(|| "cannot be dropped".to_string())) };
    unsafe { d(p) };
    Ok(())
}
/// runs under tracking and with the verdict kept outside of it
fn body(f: impl FnOnce() -> Result<u64, String>) -> CaseResult {
    let (r, rep) = tracked(f);
    let n = r?;
    if !rep.clean() {
        return Err(format!("memory: {}", rep.describe()));
    }
    Ok(CaseOut { class: n, states: n, transitions: n })
}
fn panics(f: impl FnOnce()) -> bool {
    catching(f).is_err()
}

fn lists<T: Native>(ctx: &mut Ctx) {
    let shape = <Vec<T>>::SHAPE;
    let vs = vals::<T>(3);
    let len = ctx.pick(5, 7);
    for cap in [None, Some(0), Some(1), Some(3), Some(17)] {
        seqs(vs.len(), len, &mut |s| {
            ctx.case(&format!("list of {} from {cap:?}", T::ty().name), &|| format!("pushes {s:?} of {vs:?}"), || {
                body(|| {
                    let Def::List(d) = shape.def else { return Err(untracked(|| "not a list".into())) };
                    want!((d.t)() == T::SHAPE, "element shape");
                    let mut mem = MaybeUninit::<Vec<T>>::uninit();
                    let u = PtrUninit::from_maybe_uninit(&mut mem);
                    let p = match cap {
                        None => unsafe { shape.vtable.default_in_place.unwrap()(u) },
                        Some(c) => unsafe { d.vtable.init_in_place_with_capacity.unwrap()(u, c) },
                    };
                    want!(p.as_byte_ptr() == u.as_byte_ptr(), "returned another pointer");
                    let native: &Vec<T> = unsafe { &*(u.as_byte_ptr() as *const Vec<T>) };
                    want!(native.capacity() >= cap.unwrap_or(0), "capacity {} for {cap:?}", native.capacity());
                    let mut n = 0;
                    for i in 0..=s.len() {
                        let exp = untracked(|| s[..i].iter().map(|j| vs[*j].clone()).collect::<Vec<_>>());
                        let got = untracked(|| native.iter().map(T::unmake).collect::<Vec<_>>());
                        want!(exp == got, "holds {got:?} instead of {exp:?}");
                        want!(unsafe { (d.vtable.len)(p.as_const()) } == i, "len after {i} pushes");
                        for j in 0..i {
                            let q = unsafe { (d.vtable.get_item_ptr)(p.as_const(), j) };
                            want!(q.as_byte_ptr() == &native[j] as *const T as *const u8, "item {j} is elsewhere");
                        }
                        for j in [i, i + 1, usize::MAX] {
                            want!(panics(|| { unsafe { (d.vtable.get_item_ptr)(p.as_const(), j) }; }), "item {j} of {i} exists");
                        }
                        n += i as u64 + 5;
                        if i < s.len() {
                            let mut h = Handed::new(T::make(&vs[s[i]]));
                            unsafe { (d.vtable.push)(p, h.ptr()) };
                        }
                        untracked(|| drop((exp, got)));
                    }
                    drop_with(shape, p)?;
                    Ok(n)
                })
            })
        });
    }
}

fn options<T: Native>(ctx: &mut Ctx) {
    let shape = <Option<T>>::SHAPE;
    let vs = vals::<T>(3);
    let len = ctx.pick(4, 6);
    // 0: none, i: the i-th value; the first one initializes
    seqs(vs.len() + 1, len, &mut |s| {
        ctx.case(&format!("option of {}", T::ty().name), &|| format!("{s:?} of {vs:?}"), || {
            body(|| {
                let Def::Option(d) = shape.def else { return Err(untracked(|| "not an option".into())) };
                want!(d.t() == T::SHAPE, "inner shape");
                let mut mem = MaybeUninit::<Option<T>>::uninit();
                let u = PtrUninit::from_maybe_uninit(&mut mem);
                let native: *const Option<T> = u.as_byte_ptr() as *const _;
                let mut n = 0;
                for (i, x) in s.iter().enumerate() {
                    let exp = (*x > 0).then(|| &vs[*x - 1]);
                    let mut h = exp.map(|v| Handed::new(T::make(v)));
                    let val: Option<PtrConst<'static>> = h.as_mut().map(|h| h.ptr().as_const());
                    let p = unsafe { u.assume_init() };
                    unsafe {
                        match (i, val) {
                            (0, None) => {
                                let q = (d.vtable.init_none_fn)(u);
                                want!(q.as_byte_ptr() == u.as_byte_ptr(), "returned another pointer");
                            }
                            (0, Some(v)) => {
                                let q = (d.vtable.init_some_fn)(u, v);
                                want!(q.as_byte_ptr() == u.as_byte_ptr(), "returned another pointer");
                            }
                            (_, v) => (d.vtable.replace_with_fn)(p, v),
                        }
                        let nat = &*native;
                        let got = untracked(|| nat.as_ref().map(|x| x.unmake()));
                        want!(got.as_ref() == exp, "holds {got:?} instead of {exp:?} after {:?}", &s[..=i]);
                        untracked(|| drop(got));
                        want!((d.vtable.is_some_fn)(p.as_const()) == exp.is_some(), "is_some is {}", exp.is_none());
                        let q = (d.vtable.get_value_fn)(p.as_const()).map(|q| q.as_byte_ptr());
                        want!(q == nat.as_ref().map(|x| x as *const T as *const u8), "value is elsewhere");
                    }
                    n += 4;
                }
                drop_with(shape, unsafe { u.assume_init() })?;
                Ok(n)
            })
        })
    });
}

trait MapLike<K, V>: Facet + 'static {
    fn new() -> Self;
    fn ins(&mut self, k: K, v: V);
    fn pairs(&self) -> Vec<(*const K, *const V)>;
    fn find(&self, k: &K) -> Option<*const V>;
    fn cap(&self) -> Option<usize>;
}
impl<K: Native + Eq + Hash, V: Native, S: Default + BuildHasher + Facet + 'static> MapLike<K, V> for HashMap<K, V, S> {
    fn new() -> Self {
        HashMap::default()
    }
    fn ins(&mut self, k: K, v: V) {
        self.insert(k, v);
    }
    fn pairs(&self) -> Vec<(*const K, *const V)> {
        self.iter().map(|(k, v)| (k as *const K, v as *const V)).collect()
    }
    fn find(&self, k: &K) -> Option<*const V> {
        self.get(k).map(|v| v as *const V)
    }
    fn cap(&self) -> Option<usize> {
        Some(self.capacity())
    }
}
impl<K: Native + Ord, V: Native> MapLike<K, V> for BTreeMap<K, V> {
    fn new() -> Self {
        BTreeMap::new()
    }
    fn ins(&mut self, k: K, v: V) {
        self.insert(k, v);
    }
    fn pairs(&self) -> Vec<(*const K, *const V)> {
        self.iter().map(|(k, v)| (k as *const K, v as *const V)).collect()
    }
    fn find(&self, k: &K) -> Option<*const V> {
        self.get(k).map(|v| v as *const V)
    }
    fn cap(&self) -> Option<usize> {
        None
    }
}
fn hash_maps<K: Native + Eq + Hash, V: Native>(ctx: &mut Ctx) {
    maps::<K, V, HashMap<K, V>>(ctx, "HashMap", false);
    maps::<K, V, HashMap<K, V, Collide>>(ctx, "HashMap with colliding hasher", false);
}
fn btree_maps<K: Native + Ord, V: Native>(ctx: &mut Ctx) {
    maps::<K, V, BTreeMap<K, V>>(ctx, "BTreeMap", true);
}
fn keys<K: Native>() -> Vec<Val> {
    if K::ty().name == "Pk" {
        let k = |i: i128, s: &str| Val::Struct(vec![Val::I(i), Val::S(s.into())]);
        return vec![k(1, "a"), k(1, "b"), k(2, "a"), k(3, "a"), k(3, "b")];
    }
    vals::<K>(4)
}
fn maps<K: Native, V: Native, M: MapLike<K, V>>(ctx: &mut Ctx, name: &str, ordered: bool) {
    let shape = M::SHAPE;
    let ks = keys::<K>();
    let vs = vals::<V>(2);
    // the last key is never inserted
    let nk = (ks.len() - 1).max(1);
    let len = ctx.pick(4, 5);
    for cap in [None, Some(0), Some(5)] {
        seqs(nk * vs.len(), len, &mut |s| {
            ctx.case(&format!("{name}<{},{}> from {cap:?}", K::ty().name, V::ty().name), &|| format!("insertions {s:?} of keys {ks:?} x values {vs:?}"), || {
                body(|| {
                    let Def::Map(d) = shape.def else { return Err(untracked(|| "not a map".into())) };
                    want!(d.k == K::SHAPE && d.v == V::SHAPE, "key or value shape");
                    let mut mem = MaybeUninit::<M>::uninit();
                    let u = PtrUninit::from_maybe_uninit(&mut mem);
                    let p = match cap {
                        None => unsafe { shape.vtable.default_in_place.unwrap()(u) },
                        Some(c) => unsafe { (d.vtable.init_in_place_with_capacity_fn)(u, c) },
                    };
                    want!(p.as_byte_ptr() == u.as_byte_ptr(), "returned another pointer");
                    let native: &M = unsafe { &*(u.as_byte_ptr() as *const M) };
                    want!(native.cap().unwrap_or(9) >= cap.unwrap_or(0), "capacity {:?} for {cap:?}", native.cap());
                    let mut model: M = untracked(M::new);
                    let mut n = 0;
                    for i in 0..=s.len() {
                        let un = |v: Vec<(*const K, *const V)>| {
                            let mut v = v.into_iter().map(|(k, v)| unsafe { ((*k).unmake(), (*v).unmake()) }).collect::<Vec<_>>();
                            if !ordered {
                                v.sort();
                            }
                            v
                        };
                        let m = p.as_const();
                        let exp = untracked(|| un(model.pairs()));
                        let got = untracked(|| un(native.pairs()));
                        want!(exp == got, "holds {got:?} instead of {exp:?} after {:?}", &s[..i]);
                        untracked(|| drop(got));
                        want!(unsafe { (d.vtable.len_fn)(m) } == exp.len(), "len is not {}", exp.len());
                        for k in &ks {
                            let k = K::make(k);
                            let kp = PtrConst::new(&k);
                            let e = native.find(&k);
                            want!(unsafe { (d.vtable.contains_key_fn)(m, kp) } == e.is_some(), "contains_key is {}", e.is_none());
                            let q = unsafe { (d.vtable.get_value_ptr_fn)(m, kp) };
                            want!(q.map(|q| q.as_byte_ptr()) == e.map(|e| e as *const u8), "value found is not the native one");
                            n += 2;
                        }
                        // two iterators at a time, one of them a step behind, and abandoned
                        // `stop` steps before its end
                        let exp_ptrs = untracked(|| native.pairs());
                        for stop in 0..=exp.len() {
                            let it = unsafe { (d.vtable.iter_fn)(m) };
                            let it2 = unsafe { (d.vtable.iter_fn)(m) };
                            let mut seen = untracked(Vec::new);
                            for _ in 0..exp.len() {
                                let Some((k, v)) = (unsafe { (d.vtable.iter_vtable.next)(it) }) else {
                                    return Err(untracked(|| "iteration ends early".to_string()));
                                };
                                untracked(|| seen.push((k.as_byte_ptr() as *const K, v.as_byte_ptr() as *const V)));
                                if seen.len() > stop {
                                    let Some((k2, _)) = (unsafe { (d.vtable.iter_vtable.next)(it2) }) else {
                                        return Err(untracked(|| "second iteration ends early".to_string()));
                                    };
                                    want!(k2.as_byte_ptr() == seen[seen.len() - stop - 1].0 as *const u8, "two iterators disturb each other");
                                }
                                n += 1;
                            }
                            for _ in 0..2 {
                                want!(unsafe { (d.vtable.iter_vtable.next)(it) }.is_none(), "iteration goes on after the end");
                            }
                            unsafe { (d.vtable.iter_vtable.dealloc)(it) };
                            unsafe { (d.vtable.iter_vtable.dealloc)(it2) };
                            want!(!ordered || seen == exp_ptrs, "iterated in another order");
                            untracked(|| {
                                seen.sort();
                                let mut e = exp_ptrs.clone();
                                e.sort();
                                if seen != e { Err("iteration gives other entries".to_string()) } else { Ok(()) }
                            })?;
                            untracked(|| drop(seen));
                        }
                        untracked(|| drop((exp, exp_ptrs)));
                        if i < s.len() {
                            let (k, v) = (&ks[s[i] / vs.len()], &vs[s[i] % vs.len()]);
                            let mut hk = Handed::new(K::make(k));
                            let mut hv = Handed::new(V::make(v));
                            unsafe { (d.vtable.insert_fn)(p, hk.ptr(), hv.ptr()) };
                            untracked(|| model.ins(K::make(k), V::make(v)));
                        }
                    }
                    untracked(|| drop(model));
                    drop_with(shape, p)?;
                    Ok(n)
                })
            })
        });
    }
}

fn array_of<T: Native, const N: usize>(ctx: &mut Ctx) {
    let vs = vals::<T>(3);
    seqs(vs.len(), N, &mut |s| {
        ctx.case(&format!("array [{}; {N}]", T::ty().name), &|| format!("{s:?}"), || {
            body(|| {
                let a: [T; N] = std::array::from_fn(|i| T::make(&vs[s[i]]));
                let Def::Array(d) = <[T; N]>::SHAPE.def else { return Err(untracked(|| "not an array".into())) };
                want!(d.n == N && d.t() == T::SHAPE, "length or element shape");
                for i in 0..N {
                    let q = unsafe { (d.vtable.get_item_ptr)(PtrConst::new(&a), i) };
                    want!(q.as_byte_ptr() == &a[i] as *const T as *const u8, "item {i} is elsewhere");
                }
                for i in [N, N + 1, usize::MAX] {
                    want!(panics(|| { unsafe { (d.vtable.get_item_ptr)(PtrConst::new(&a), i) }; }), "item {i} exists");
                }
                for len in 0..=N {
                    let sl: &[T] = &a[N - len..];
                    // a slice shape is that of the reference
                    fn slice_def<'a, T: Native>(_: &&'a [T]) -> &'static Shape {
                        <&'a [T]>::SHAPE
                    }
                    let Def::Slice(d) = slice_def(&sl).def else { return Err(untracked(|| "not a slice".into())) };
                    want!(d.t() == T::SHAPE, "element shape");
                    let p = PtrConst::new(&sl);
                    want!(unsafe { (d.vtable.len)(p) } == len, "slice length");
                    for i in 0..len {
                        let q = unsafe { (d.vtable.get_item_ptr)(p, i) };
                        want!(q.as_byte_ptr() == &sl[i] as *const T as *const u8, "slice item {i} is elsewhere");
                    }
                    for i in [len, len + 1, usize::MAX] {
                        want!(panics(|| { unsafe { (d.vtable.get_item_ptr)(p, i) }; }), "slice item {i} of {len} exists");
                    }
                }
                Ok(N as u64)
            })
        })
    });
}
fn arrays(ctx: &mut Ctx) {
    array_of::<u8, 0>(ctx);
    array_of::<u8, 1>(ctx);
    array_of::<u8, 4>(ctx);
    array_of::<u128, 3>(ctx);
    array_of::<String, 0>(ctx);
    array_of::<String, 3>(ctx);
    array_of::<(u8, u16), 3>(ctx);
    array_of::<Vec<String>, 2>(ctx);
    array_of::<(), 3>(ctx);
    array_of::<[u8; 3], 3>(ctx);
    array_of::<Option<String>, 2>(ctx);
    array_of::<E, 3>(ctx);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    New(usize),
    CloneS(usize),
    CloneW(usize),
    Downgrade(usize),
    Upgrade(usize),
    DropS(usize),
    DropW(usize),
    EmptyW,
}
const SLOTS: usize = 3;
/// what is in each slot: number of the value pointed to
#[derive(Clone, Default)]
struct PState {
    strong: [Option<usize>; SLOTS],
    weak: [Option<Option<usize>>; SLOTS],
    made: usize,
}
impl PState {
    fn alive(&self, o: usize) -> bool {
        self.strong.contains(&Some(o))
    }
    fn enabled(&self) -> Vec<P> {
        let mut out = vec![];
        let (fs, fw) = (self.strong.contains(&None), self.weak.contains(&None));
        if fs && self.made < 2 {
            out.push(P::New(0));
            out.push(P::New(1));
        }
        if fw {
            out.push(P::EmptyW);
        }
        for i in 0..SLOTS {
            if self.strong[i].is_some() {
                out.push(P::DropS(i));
                if fs {
                    out.push(P::CloneS(i))
                }
                if fw {
                    out.push(P::Downgrade(i))
                }
            }
            if self.weak[i].is_some() {
                out.push(P::DropW(i));
                if fw {
                    out.push(P::CloneW(i))
                }
                if fs {
                    out.push(P::Upgrade(i))
                }
            }
        }
        out
    }
    fn step(&mut self, op: P) {
        let fs = self.strong.iter().position(|x| x.is_none());
        let fw = self.weak.iter().position(|x| x.is_none());
        match op {
            P::New(_) => {
                self.strong[fs.unwrap()] = Some(self.made);
                self.made += 1;
            }
            P::EmptyW => self.weak[fw.unwrap()] = Some(None),
            P::CloneS(i) => self.strong[fs.unwrap()] = self.strong[i],
            P::CloneW(i) => self.weak[fw.unwrap()] = self.weak[i],
            P::Downgrade(i) => self.weak[fw.unwrap()] = Some(self.strong[i]),
            P::Upgrade(i) => {
                if let Some(Some(o)) = self.weak[i] {
                    if self.alive(o) {
                        self.strong[fs.unwrap()] = Some(o)
                    }
                }
            }
            P::DropS(i) => self.strong[i] = None,
            P::DropW(i) => self.weak[i] = None,
        }
    }
}
fn pointers<T: Native>(ctx: &mut Ctx) {
    let vs = vals::<T>(2);
    let depth = ctx.pick(6, 7);
    fn go(st: &PState, h: &mut Vec<P>, depth: usize, f: &mut dyn FnMut(&[P])) {
        if h.len() == depth {
            return f(h);
        }
        for op in st.enabled() {
            let mut s2 = st.clone();
            s2.step(op);
            h.push(op);
            go(&s2, h, depth, f);
            h.pop();
        }
    }
    go(&PState::default(), &mut vec![], depth, &mut |h| {
        ctx.case(&format!("Arc and Weak of {}", T::ty().name), &|| format!("{h:?}"), || body(|| pointer_history::<T>(h, &vs)))
    });
}
fn pointer_history<T: Native>(h: &[P], vs: &[Val]) -> Result<u64, String> {
    let (sa, sw) = (<Arc<T>>::SHAPE, <Weak<T>>::SHAPE);
    let (Def::SmartPointer(da), Def::SmartPointer(dw)) = (sa.def, sw.def) else {
        return Err(untracked(|| "not smart pointers".into()));
    };
    want!(da.pointee == Some(T::SHAPE) && dw.pointee == Some(T::SHAPE), "pointee");
    want!(da.weak.map(|f| f()) == Some(sw) && dw.strong.map(|f| f()) == Some(sa), "counterpart");
    want!(da.strong.is_none() && dw.weak.is_none(), "counterpart of the wrong kind");
    want!(dw.flags.contains(SmartPointerFlags::WEAK) && !da.flags.contains(SmartPointerFlags::WEAK), "flags");
    let mut arcs: [MaybeUninit<Arc<T>>; SLOTS] = std::array::from_fn(|_| MaybeUninit::uninit());
    let mut weaks: [MaybeUninit<Weak<T>>; SLOTS] = std::array::from_fn(|_| MaybeUninit::uninit());
    let ap = |a: &mut [MaybeUninit<Arc<T>>; SLOTS], i: usize| PtrUninit::new(a[i].as_mut_ptr());
    let wp = |a: &mut [MaybeUninit<Weak<T>>; SLOTS], i: usize| PtrUninit::new(a[i].as_mut_ptr());
    let mut st = PState::default();
    let mut values: [usize; 2] = [0; 2];
    for op in h {
        let fs = st.strong.iter().position(|x| x.is_none()).unwrap_or(0);
        let fw = st.weak.iter().position(|x| x.is_none()).unwrap_or(0);
        unsafe {
            match *op {
                P::New(v) => {
                    values[st.made] = v;
                    let mut hd = Handed::new(T::make(&vs[v % vs.len()]));
                    da.vtable.new_into_fn.unwrap()(ap(&mut arcs, fs), hd.ptr().as_const());
                }
                P::EmptyW => {
                    sw.vtable.default_in_place.unwrap()(wp(&mut weaks, fw));
                }
                P::CloneS(i) => {
                    sa.vtable.clone_into.unwrap()(ap(&mut arcs, i).assume_init().as_const(), ap(&mut arcs, fs));
                }
                P::CloneW(i) => {
                    sw.vtable.clone_into.unwrap()(wp(&mut weaks, i).assume_init().as_const(), wp(&mut weaks, fw));
                }
                P::Downgrade(i) => {
                    da.vtable.downgrade_into_fn.unwrap()(ap(&mut arcs, i).assume_init(), wp(&mut weaks, fw));
                }
                P::Upgrade(i) => {
                    let r = dw.vtable.upgrade_into_fn.unwrap()(wp(&mut weaks, i).assume_init(), ap(&mut arcs, fs));
                    let possible = matches!(st.weak[i], Some(Some(o)) if st.alive(o));
                    want!(r.is_some() == possible, "upgrade gave {:?}, expected {possible}", r.is_some());
                }
                P::DropS(i) => drop_with(sa, ap(&mut arcs, i).assume_init())?,
                P::DropW(i) => drop_with(sw, wp(&mut weaks, i).assume_init())?,
            }
        }
        st.step(*op);
        for i in 0..SLOTS {
            if let Some(o) = st.strong[i] {
                let a = unsafe { arcs[i].assume_init_ref() };
                let strong = st.strong.iter().filter(|x| **x == Some(o)).count();
                let weak = st.weak.iter().filter(|x| **x == Some(Some(o))).count();
                want!(Arc::strong_count(a) == strong, "{} strong references instead of {strong} after {op:?}", Arc::strong_count(a));
                want!(Arc::weak_count(a) == weak, "{} weak references instead of {weak} after {op:?}", Arc::weak_count(a));
                let q = unsafe { da.vtable.borrow_fn.unwrap()(PtrConst::new(a)) };
                want!(q.as_byte_ptr() == &**a as *const T as *const u8, "borrows something else");
                let v = untracked(|| a.unmake());
                want!(v == vs[values[o] % vs.len()], "holds {v:?}");
                untracked(|| drop(v));
            }
            if let Some(o) = st.weak[i] {
                let w = unsafe { weaks[i].assume_init_ref() };
                let strong = st.strong.iter().filter(|x| o.is_some() && **x == o).count();
                want!(w.strong_count() == strong, "weak reference sees {} strong ones instead of {strong}", w.strong_count());
            }
        }
    }
    for i in 0..SLOTS {
        if st.strong[i].is_some() {
            drop_with(sa, unsafe { ap(&mut arcs, i).assume_init() })?;
        }
        if st.weak[i].is_some() {
            drop_with(sw, unsafe { wp(&mut weaks, i).assume_init() })?;
        }
    }
    Ok(h.len() as u64)
}

struct NotFacet(String);
fn opaque_arc(ctx: &mut Ctx) {
    for clones in 0..3usize {
        ctx.case("opaque Arc", &|| format!("{clones} clones"), || {
            body(|| {
                let shape = <Opaque<Arc<NotFacet>>>::SHAPE;
                let Def::SmartPointer(d) = shape.def else { return Err(untracked(|| "not a smart pointer".into())) };
                want!(d.pointee.is_none(), "an opaque pointee has a shape");
                want!(shape.layout == std::alloc::Layout::new::<Opaque<Arc<NotFacet>>>(), "layout");
                let mut mem: [MaybeUninit<Opaque<Arc<NotFacet>>>; 3] = std::array::from_fn(|_| MaybeUninit::uninit());
                let mut hd = Handed::new(NotFacet("x".to_string()));
                let p0 = unsafe { d.vtable.new_into_fn.unwrap()(PtrUninit::new(mem[0].as_mut_ptr()), hd.ptr().as_const()) };
                for i in 0..clones.min(2) {
                    unsafe { shape.vtable.clone_into.unwrap()(p0.as_const(), PtrUninit::new(mem[i + 1].as_mut_ptr())) };
                }
                let a: &Arc<NotFacet> = unsafe { &*(mem[0].as_ptr() as *const Arc<NotFacet>) };
                want!(Arc::strong_count(a) == 1 + clones, "{} references", Arc::strong_count(a));
                let q = unsafe { d.vtable.borrow_fn.unwrap()(p0.as_const()) };
                want!(q.as_byte_ptr() == &**a as *const NotFacet as *const u8 && a.0 == "x", "borrows something else");
                for i in 0..=clones {
                    drop_with(shape, PtrMut::new(mem[i].as_mut_ptr()))?;
                }
                Ok(clones as u64)
            })
        });
    }
}
fn non_null(ctx: &mut Ctx) {
    for v in vals::<String>(4) {
        ctx.case("NonNull", &|| format!("{v:?}"), || {
            body(|| {
                let shape = <std::ptr::NonNull<String>>::SHAPE;
                let Def::SmartPointer(d) = shape.def else { return Err(untracked(|| "not a smart pointer".into())) };
                want!(d.pointee == Some(String::SHAPE) && d.weak.is_none() && d.strong.is_none(), "pointee or counterparts");
                let mut s = String::make(&v);
                let target: *mut String = &mut s;
                let mut mem: [MaybeUninit<std::ptr::NonNull<String>>; 2] = [MaybeUninit::uninit(), MaybeUninit::uninit()];
                let p = unsafe { d.vtable.new_into_fn.unwrap()(PtrUninit::new(mem[0].as_mut_ptr()), PtrConst::new(&target)) };
                unsafe { shape.vtable.clone_into.unwrap()(p.as_const(), PtrUninit::new(mem[1].as_mut_ptr())) };
                for m in &mut mem {
                    let q = unsafe { d.vtable.borrow_fn.unwrap()(PtrConst::new(m.as_ptr())) };
                    want!(q.as_byte_ptr() == target as *const u8, "borrows something else");
                    drop_with(shape, PtrMut::new(m.as_mut_ptr()))?;
                }
                want!(s.unmake() == v, "changed the target");
                Ok(1)
            })
        });
    }
}
