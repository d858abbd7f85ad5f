//! Executes commands on the real library and records one event per command. No oracle here.
use crate::cmd::*;
use crate::inst::*;
use hash_trie::results::{HashTrieError, MapJointTransformResult, MapTransformResult, MapTransmuteResult, SetJointTransformResult, SetTransformResult, SetTransmuteResult};
use hash_trie::traits::{Flagword, HasherBv, Hashword};
use hash_trie::transformations::*;
use hash_trie::{HashTrieMap, HashTrieSet, ParallelismStrategy};
use std::convert::TryFrom;
use std::fmt::{Debug, Write};
use std::future::Future;
use std::ops::BitAnd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn noop_raw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { noop_raw() }
    fn n(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &V)
}
pub fn block_on<T>(fut: impl Future<Output = T>) -> T {
    let mut fut = Box::pin(fut);
    let w = unsafe { Waker::from_raw(noop_raw()) };
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(x) = Pin::as_mut(&mut fut).poll(&mut cx) { return x; }
    }
}

pub trait HW: Hashword + Trunc + Send + Sync {}
impl<T: Hashword + Trunc + Send + Sync> HW for T {}

/// a hash function usable for both key types
pub trait HS<H>: HasherBv<H, KA> + HasherBv<H, KB> + Clone + Send + Sync {}
impl<H, M: HasherBv<H, KA> + HasherBv<H, KB> + Clone + Send + Sync> HS<H> for M {}

pub enum Obj<H: HW, F: Flagword<H>, M: HS<H>> where <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug {
    A(HashTrieMap<H, F, KA, VA, M>),
    B(HashTrieMap<H, F, KB, VB, M>),
    C(HashTrieMap<H, F, KA, VB, M>),
    SA(HashTrieSet<H, F, KA, M>),
    SB(HashTrieSet<H, F, KB, M>),
}

/// Registers are typed by index.
pub const NREG: usize = 20;
pub fn reg_type(r: usize) -> u8 { match r { 0..=5 => b'A', 6..=8 => b'B', 9..=11 => b'C', 12..=16 => b'S', _ => b'T' } }

pub type E5 = [u32; 5]; // id, tag, value, key instance, value instance
const DEAD: u32 = 999_999;
const MAXFUSE: i64 = 600;

fn rk<const T: u8>(k: &Key<T>) -> [u32; 3] {
    if is_live(k.slot, 1) { [k.id, k.tag, k.slot] } else { [DEAD, DEAD, DEAD] }
}
fn rv<const T: u8>(v: &Val<T>) -> [u32; 2] { if is_live(v.slot, 2) { [v.v, v.slot] } else { [DEAD, DEAD] } }
fn ent<const T: u8, const U: u8>(k: &Key<T>, v: &Val<U>) -> E5 { let a = rk(k); let b = rv(v); [a[0], a[1], b[0], a[2], b[1]] }
fn ents<const T: u8>(k: &Key<T>) -> E5 { let a = rk(k); [a[0], a[1], 0, a[2], 0] }

#[derive(Default, Clone)]
pub struct Outcome { pub calls: [Vec<Vec<u32>>; 3], pub red: Vec<u32>, pub res: String, pub ent: Vec<E5>, pub stored: Option<usize>, pub cst: [i32; 3] }

pub struct Ctx<'a> { n: usize, hs: &'a [u128], tb: &'a [u8], tl: &'a [u8], tr: &'a [u8], bb: u32, bl: u32, br: u32, log: Mutex<[Vec<Vec<u32>>; 3]> }
impl<'a> Ctx<'a> {
    fn push(&self, w: usize, c: Vec<u32>) { self.log.lock().unwrap_or_else(|e| e.into_inner())[w].push(c); }
    fn h(&self, id: u32) -> u128 { self.hs.get(id as usize).copied().unwrap_or(0) }
    /// (code, val/tag/reduce number)
    fn ans(&self, w: usize, id: u32) -> (u8, u32) {
        let (t, b) = [(self.tb, self.bb), (self.tl, self.bl), (self.tr, self.br)][w];
        (if (id as usize) < self.n { t.get(id as usize).copied().unwrap_or(4) } else { 4 }, b + id)
    }
    fn tr_<const T: u8, const U: u8>(&self, w: usize, k: &Key<T>, v: &Val<U>) -> MapTransformResult<Val<U>, Bag> {
        tick();
        let e = ent(k, v);
        self.push(w, vec![e[0], e[1], e[2]]);
        let (c, x) = self.ans(w, e[0]);
        match c { 0 => MapTransformResult::Unchanged(Bag(vec![x])), 1 => MapTransformResult::Transformed(Val::new(x), Bag(vec![x])), _ => MapTransformResult::Removed(Bag(vec![x])) }
    }
    fn tm_<const T: u8, const U: u8, const S: u8, const X: u8>(&self, w: usize, k: &Key<T>, v: &Val<U>) -> MapTransmuteResult<Key<S>, Val<X>, Bag> {
        tick();
        let e = ent(k, v);
        self.push(w, vec![e[0], e[1], e[2]]);
        let (c, x) = self.ans(w, e[0]);
        match c { 0 | 1 => MapTransmuteResult::Transmuted(Key::new(e[0], x, self.h(e[0])), Val::new(x), Bag(vec![x])), _ => MapTransmuteResult::Removed(Bag(vec![x])) }
    }
    fn tf_<const T: u8, const U: u8, const X: u8>(&self, w: usize, k: &Key<T>, v: &Val<U>) -> SetTransmuteResult<Val<X>, Bag> {
        tick();
        let e = ent(k, v);
        self.push(w, vec![e[0], e[1], e[2]]);
        let (c, x) = self.ans(w, e[0]);
        match c { 0 | 1 => SetTransmuteResult::Transmuted(Val::new(x), Bag(vec![x])), _ => SetTransmuteResult::Removed(Bag(vec![x])) }
    }
    fn pair<const T: u8, const U: u8, const S: u8, const X: u8>(&self, k: &Key<T>, v: &Val<U>, l: &Key<S>, w: &Val<X>) -> (u8, u32, u32) {
        tick();
        let (a, b) = (ent(k, v), ent(l, w));
        self.push(0, vec![a[0], a[1], a[2], b[0], b[1], b[2]]);
        let (c, x) = self.ans(0, a[0]);
        (c, x, a[0])
    }
    fn bj<const T: u8, const U: u8>(&self, k: &Key<T>, v: &Val<U>, l: &Key<T>, w: &Val<U>) -> MapJointTransformResult<Val<U>, Bag> {
        let (c, x, _) = self.pair(k, v, l, w);
        let r = Bag(vec![x]);
        match c { 0 => MapJointTransformResult::UnchangedLR(r), 1 => MapJointTransformResult::UnchangedL(r), 2 => MapJointTransformResult::UnchangedR(r),
            3 => MapJointTransformResult::Transformed(Val::new(x), r), _ => MapJointTransformResult::Removed(r) }
    }
    fn bt<const T: u8, const U: u8, const S: u8, const X: u8, const Y: u8>(&self, k: &Key<T>, v: &Val<U>, l: &Key<S>, w: &Val<X>) -> MapTransformResult<Val<Y>, Bag> {
        let (c, x, _) = self.pair(k, v, l, w);
        let r = Bag(vec![x]);
        match c { 0 => MapTransformResult::Unchanged(r), 1 => MapTransformResult::Transformed(Val::new(x), r), _ => MapTransformResult::Removed(r) }
    }
    fn bm<const T: u8, const U: u8, const S: u8, const X: u8, const P: u8, const Y: u8>(&self, k: &Key<T>, v: &Val<U>, l: &Key<S>, w: &Val<X>) -> MapTransmuteResult<Key<P>, Val<Y>, Bag> {
        let (c, x, id) = self.pair(k, v, l, w);
        let r = Bag(vec![x]);
        match c { 0 | 1 => MapTransmuteResult::Transmuted(Key::new(id, x, self.h(id)), Val::new(x), r), _ => MapTransmuteResult::Removed(r) }
    }
    // sets
    fn str_<const T: u8>(&self, w: usize, k: &Key<T>) -> SetTransformResult<Bag> {
        tick();
        let e = ents(k);
        self.push(w, vec![e[0], e[1], 0]);
        let (c, x) = self.ans(w, e[0]);
        match c { 0 => SetTransformResult::Unchanged(Bag(vec![x])), _ => SetTransformResult::Removed(Bag(vec![x])) }
    }
    fn stm<const T: u8, const S: u8>(&self, w: usize, k: &Key<T>) -> SetTransmuteResult<Key<S>, Bag> {
        tick();
        let e = ents(k);
        self.push(w, vec![e[0], e[1], 0]);
        let (c, x) = self.ans(w, e[0]);
        match c { 0 | 1 => SetTransmuteResult::Transmuted(Key::new(e[0], x, self.h(e[0])), Bag(vec![x])), _ => SetTransmuteResult::Removed(Bag(vec![x])) }
    }
    fn spair<const T: u8, const S: u8>(&self, k: &Key<T>, l: &Key<S>) -> (u8, u32, u32) {
        tick();
        let (a, b) = (ents(k), ents(l));
        self.push(0, vec![a[0], a[1], 0, b[0], b[1], 0]);
        let (c, x) = self.ans(0, a[0]);
        (c, x, a[0])
    }
    fn sbj<const T: u8>(&self, k: &Key<T>, l: &Key<T>) -> SetJointTransformResult<Bag> {
        let (c, x, _) = self.spair(k, l);
        let r = Bag(vec![x]);
        match c { 0 => SetJointTransformResult::UnchangedLR(r), 1 => SetJointTransformResult::UnchangedL(r), 2 => SetJointTransformResult::UnchangedR(r), _ => SetJointTransformResult::Removed(r) }
    }
    fn sbt<const T: u8, const S: u8>(&self, k: &Key<T>, l: &Key<S>) -> SetTransformResult<Bag> {
        let (c, x, _) = self.spair(k, l);
        match c { 0 => SetTransformResult::Unchanged(Bag(vec![x])), _ => SetTransformResult::Removed(Bag(vec![x])) }
    }
    fn sbm<const T: u8, const S: u8, const P: u8>(&self, k: &Key<T>, l: &Key<S>) -> SetTransmuteResult<Key<P>, Bag> {
        let (c, x, id) = self.spair(k, l);
        match c { 0 | 1 => SetTransmuteResult::Transmuted(Key::new(id, x, self.h(id)), Bag(vec![x])), _ => SetTransmuteResult::Removed(Bag(vec![x])) }
    }
}
// operators, by the library's constructors: constant (0 unchanged.., last removed) or the closure.  A constant's constructor
// gives it the type of a function pointer; the same constant is needed with the type of the closure
macro_rules! again { ($o:expr, $t:ident: $($v:ident)*) => { match $o { $($t::$v(r) => $t::$v(r),)* $t::Generic(..) => panic!("a constant operator that is none") } } }
fn mt<K, V, F: Fn(&K, &V) -> MapTransformResult<V, Bag> + Clone>(c: i32, f: F) -> MapTransform<Bag, F> {
    match c { -1 => new_map_transform_generic(f), 0 => again!(new_map_transform_unchanged::<K, V, Bag>(Bag::default()), MapTransform: Unchanged Removed), _ => again!(new_map_transform_removed::<K, V, Bag>(Bag::default()), MapTransform: Unchanged Removed) }
}
fn mtl<K, V, L, W, F: Fn(&K, &V, &L, &W) -> MapTransformResult<V, Bag> + Clone>(c: i32, f: F) -> MapTransform<Bag, F> {
    match c { -1 => new_map_transform_transmute_generic(f), 0 => again!(new_map_transform_transmute_unchanged::<K, V, L, W, Bag>(Bag::default()), MapTransform: Unchanged Removed), _ => again!(new_map_transform_transmute_removed::<K, V, L, W, Bag>(Bag::default()), MapTransform: Unchanged Removed) }
}
fn mtr<K, V, L, W, F: Fn(&K, &V, &L, &W) -> MapTransformResult<W, Bag> + Clone>(c: i32, f: F) -> MapTransform<Bag, F> {
    match c { -1 => new_map_transmute_transform_generic(f), 0 => again!(new_map_transmute_transform_unchanged::<K, V, L, W, Bag>(Bag::default()), MapTransform: Unchanged Removed), _ => again!(new_map_transmute_transform_removed::<K, V, L, W, Bag>(Bag::default()), MapTransform: Unchanged Removed) }
}
fn mm<K, V, S, X, F: Fn(&K, &V) -> MapTransmuteResult<S, X, Bag> + Clone>(c: i32, f: F) -> MapTransmute<Bag, F> {
    match c { -1 => new_map_transmute_generic(f), _ => again!(new_map_transmute_removed::<K, V, S, X, Bag>(Bag::default()), MapTransmute: Removed) }
}
fn mmm<K, V, L, W, S, X, F: Fn(&K, &V, &L, &W) -> MapTransmuteResult<S, X, Bag> + Clone>(c: i32, f: F) -> MapTransmute<Bag, F> {
    match c { -1 => new_map_transmute_transmute_generic(f), _ => again!(new_map_transmute_transmute_removed::<K, V, L, W, S, X, Bag>(Bag::default()), MapTransmute: Removed) }
}
fn st<K, F: Fn(&K) -> SetTransformResult<Bag> + Clone>(c: i32, f: F) -> SetTransform<Bag, F> {
    match c { -1 => new_set_transform_generic(f), 0 => again!(new_set_transform_unchanged::<K, Bag>(Bag::default()), SetTransform: Unchanged Removed), _ => again!(new_set_transform_removed::<K, Bag>(Bag::default()), SetTransform: Unchanged Removed) }
}
fn stt<K, L, F: Fn(&K, &L) -> SetTransformResult<Bag> + Clone>(c: i32, f: F) -> SetTransform<Bag, F> {
    match c { -1 => new_set_transform_transmute_generic(f), 0 => again!(new_set_transform_transmute_unchanged::<K, L, Bag>(Bag::default()), SetTransform: Unchanged Removed), _ => again!(new_set_transform_transmute_removed::<K, L, Bag>(Bag::default()), SetTransform: Unchanged Removed) }
}
fn sm<K, S, F: Fn(&K) -> SetTransmuteResult<S, Bag> + Clone>(c: i32, f: F) -> SetTransmute<Bag, F> {
    match c { -1 => new_set_transmute_generic(f), _ => again!(new_set_transmute_removed::<K, S, Bag>(Bag::default()), SetTransmute: Removed) }
}
fn smm<K, L, S, F: Fn(&K, &L) -> SetTransmuteResult<S, Bag> + Clone>(c: i32, f: F) -> SetTransmute<Bag, F> {
    match c { -1 => new_set_transmute_transmute_generic(f), _ => again!(new_set_transmute_transmute_removed::<K, L, S, Bag>(Bag::default()), SetTransmute: Removed) }
}
// a transmutation that keeps the key has no constructor of its own
fn tf<F>(c: i32, f: F) -> SetTransmute<Bag, F> { match c { -1 => SetTransmute::Generic(f), _ => SetTransmute::Removed(Bag::default()) } }
// a joint operator that is to answer like `f`: as it stands, or (`fl`) as the flipped form of its mirror image (C24)
fn mj<K, V, F: Fn(&K, &V, &K, &V) -> MapJointTransformResult<V, Bag> + Clone>(c: i32, fl: bool, f: F) -> MapJointTransform<Bag, impl Fn(&K, &V, &K, &V) -> MapJointTransformResult<V, Bag> + Clone> {
    let b = Bag::default();
    let g = move |k: &K, v: &V, l: &K, w: &V| if fl { match f(l, w, k, v) { MapJointTransformResult::UnchangedL(r) => MapJointTransformResult::UnchangedR(r), MapJointTransformResult::UnchangedR(r) => MapJointTransformResult::UnchangedL(r), a => a } } else { f(k, v, l, w) };
    let c = if fl { [0, 2, 1, 3].get(c as usize).map_or(c, |x| *x) } else { c };
    let o = if c < 0 { new_map_joint_transform_generic(g) } else {
        let o = match c { 0 => new_map_joint_transform_unchangedlr::<K, V, Bag>(b), 1 => new_map_joint_transform_unchangedl(b), 2 => new_map_joint_transform_unchangedr(b), _ => new_map_joint_transform_removed(b) };
        again!(o, MapJointTransform: UnchangedLR UnchangedL UnchangedR Removed)
    };
    if fl { o.flip() } else { o }
}
fn sj<K, F: Fn(&K, &K) -> SetJointTransformResult<Bag> + Clone>(c: i32, fl: bool, f: F) -> SetJointTransform<Bag, impl Fn(&K, &K) -> SetJointTransformResult<Bag> + Clone> {
    let b = Bag::default();
    let g = move |k: &K, l: &K| if fl { match f(l, k) { SetJointTransformResult::UnchangedL(r) => SetJointTransformResult::UnchangedR(r), SetJointTransformResult::UnchangedR(r) => SetJointTransformResult::UnchangedL(r), a => a } } else { f(k, l) };
    let c = if fl { [0, 2, 1, 3].get(c as usize).map_or(c, |x| *x) } else { c };
    let o = if c < 0 { new_set_joint_transform_generic(g) } else {
        let o = match c { 0 => new_set_joint_transform_unchangedlr::<K, Bag>(b), 1 => new_set_joint_transform_unchangedl(b), 2 => new_set_joint_transform_unchangedr(b), _ => new_set_joint_transform_removed(b) };
        again!(o, SetJointTransform: UnchangedLR UnchangedL UnchangedR Removed)
    };
    if fl { o.flip() } else { o }
}
fn ps(p: u8) -> ParallelismStrategy { if p == 0 { ParallelismStrategy::Sequential } else { ParallelismStrategy::MiddleIndex } }

impl<H: HW, F: Flagword<H>, M: HS<H>> Obj<H, F, M> where <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug {
    /// empty: from new() or from Default
    fn new(ty: u8, def: bool) -> Self {
        if def {
            return match ty { b'A' => Obj::A(Default::default()), b'B' => Obj::B(Default::default()), b'C' => Obj::C(Default::default()), b'S' => Obj::SA(Default::default()), _ => Obj::SB(Default::default()) };
        }
        match ty { b'A' => Obj::A(HashTrieMap::new()), b'B' => Obj::B(HashTrieMap::new()), b'C' => Obj::C(HashTrieMap::new()), b'S' => Obj::SA(HashTrieSet::new()), _ => Obj::SB(HashTrieSet::new()) }
    }
    fn is_set(&self) -> bool { matches!(self, Obj::SA(_) | Obj::SB(_)) }
    fn dup(&self) -> Self {
        match self { Obj::A(m) => Obj::A(m.clone()), Obj::B(m) => Obj::B(m.clone()), Obj::C(m) => Obj::C(m.clone()), Obj::SA(m) => Obj::SA(m.clone()), Obj::SB(m) => Obj::SB(m.clone()) }
    }
    fn size(&self) -> usize { match self { Obj::A(m) => m.size(), Obj::B(m) => m.size(), Obj::C(m) => m.size(), Obj::SA(m) => m.size(), Obj::SB(m) => m.size() } }
    pub fn visit(&self) -> Vec<E5> {
        let out = Mutex::new(vec![]);
        let p = |e: E5| { tick(); out.lock().unwrap().push(e) };
        match self { Obj::A(m) => m.visit(|k, v| p(ent(k, v))), Obj::B(m) => m.visit(|k, v| p(ent(k, v))), Obj::C(m) => m.visit(|k, v| p(ent(k, v))),
            Obj::SA(m) => m.visit(|k| p(ents(k))), Obj::SB(m) => m.visit(|k| p(ents(k))) }
        out.into_inner().unwrap()
    }
    /// het: look up with the other key type
    pub fn find(&self, id: u32, h: u128, het: bool) -> Option<E5> {
        match (self, het) {
            (Obj::A(m), false) => m.find(&KA::new(id, 0, h)).ok().map(|(k, v)| ent(k, v)),
            (Obj::A(m), true) => m.find(&KB::new(id, 0, h)).ok().map(|(k, v)| ent(k, v)),
            (Obj::B(m), false) => m.find(&KB::new(id, 0, h)).ok().map(|(k, v)| ent(k, v)),
            (Obj::B(m), true) => m.find(&KA::new(id, 0, h)).ok().map(|(k, v)| ent(k, v)),
            (Obj::C(m), _) => m.find(&KA::new(id, 0, h)).ok().map(|(k, v)| ent(k, v)),
            (Obj::SA(m), false) => m.find(&KA::new(id, 0, h)).ok().map(ents),
            (Obj::SA(m), true) => m.find(&KB::new(id, 0, h)).ok().map(ents),
            (Obj::SB(m), false) => m.find(&KB::new(id, 0, h)).ok().map(ents),
            (Obj::SB(m), true) => m.find(&KA::new(id, 0, h)).ok().map(ents),
        }
    }
    /// one insert (replacing; tag = value = x) or remove: the new map, and whether an entry was there
    fn step(&self, rem: bool, id: u32, x: u32, h: u128) -> (Option<Self>, bool) {
        macro_rules! go { ($m:expr, $mk:expr, $k:expr, $v:expr) => {
            if rem { match $m.remove(&$k) { Ok((n, _, _)) => (Some($mk(n)), true), Err(_) => (None, false) } }
            else { match $m.insert($k, $v, true) { Ok((n, _, _, p)) => { let p = p.is_some(); (Some($mk(n)), p) } Err(_) => (None, true) } } } }
        macro_rules! gos { ($m:expr, $mk:expr, $k:expr) => {
            if rem { match $m.remove(&$k) { Ok((n, _)) => (Some($mk(n)), true), Err(_) => (None, false) } }
            else { match $m.insert($k, true) { Ok((n, _, p)) => { let p = p.is_some(); (Some($mk(n)), p) } Err(_) => (None, true) } } } }
        match self {
            Obj::A(m) => go!(m, Obj::A, KA::new(id, x, h), VA::new(x)),
            Obj::B(m) => go!(m, Obj::B, KB::new(id, x, h), VB::new(x)),
            Obj::C(m) => go!(m, Obj::C, KA::new(id, x, h), VB::new(x)),
            Obj::SA(m) => gos!(m, Obj::SA, KA::new(id, x, h)),
            Obj::SB(m) => gos!(m, Obj::SB, KB::new(id, x, h)),
        }
    }
    /// raw references to the stored entry
    fn rawref(&self, id: u32, h: u128) -> Option<RawRef> {
        match self {
            Obj::A(m) => m.find(&KA::new(id, 0, h)).ok().map(|(k, v)| RawRef::AA(k, v)),
            Obj::B(m) => m.find(&KB::new(id, 0, h)).ok().map(|(k, v)| RawRef::BB(k, v)),
            Obj::C(m) => m.find(&KA::new(id, 0, h)).ok().map(|(k, v)| RawRef::AB(k, v)),
            Obj::SA(m) => m.find(&KA::new(id, 0, h)).ok().map(|k| RawRef::A(k)),
            Obj::SB(m) => m.find(&KB::new(id, 0, h)).ok().map(|k| RawRef::B(k)),
        }
    }
    fn same(&self, o: &Self) -> Option<bool> {
        match (self, o) { (Obj::A(a), Obj::A(b)) => Some(a == b), (Obj::B(a), Obj::B(b)) => Some(a == b), (Obj::C(a), Obj::C(b)) => Some(a == b),
            (Obj::SA(a), Obj::SA(b)) => Some(a == b), (Obj::SB(a), Obj::SB(b)) => Some(a == b), _ => None }
    }
}

#[derive(Clone, Copy)]
pub enum RawRef { AA(*const KA, *const VA), BB(*const KB, *const VB), AB(*const KA, *const VB), A(*const KA), B(*const KB) }
impl RawRef {
    fn read(&self) -> E5 {
        unsafe { match self { RawRef::AA(k, v) => ent(&**k, &**v), RawRef::BB(k, v) => ent(&**k, &**v), RawRef::AB(k, v) => ent(&**k, &**v), RawRef::A(k) => ents(&**k), RawRef::B(k) => ents(&**k) } }
    }
}
unsafe impl Send for RawRef {}
unsafe impl Sync for RawRef {}

pub struct InsOut { res: &'static str, prev: Vec<E5>, ptr: Vec<E5>, found: Vec<E5>, raw: Option<RawRef> }

macro_rules! ins_map { ($m:expr, $k:expr, $v:expr, $rep:expr, $mk:expr, $rr:expr) => {
    match $m.insert($k, $v, $rep) {
        Ok((n, kp, vp, prev)) => { let prev = prev.map(|(k, v)| ent(k, v)).into_iter().collect();
            let raw = $rr(kp, vp); (Some($mk(n)), InsOut { res: "ok", prev, ptr: vec![], found: vec![], raw: Some(raw) }) },
        Err((k, v)) => (None, InsOut { res: "found", prev: vec![], ptr: vec![], found: vec![ent(k, v)], raw: None }),
    } } }
macro_rules! ins_set { ($m:expr, $k:expr, $rep:expr, $mk:expr, $rr:expr) => {
    match $m.insert($k, $rep) {
        Ok((n, kp, prev)) => { let prev = prev.map(|k| ents(k)).into_iter().collect();
            (Some($mk(n)), InsOut { res: "ok", prev, ptr: vec![], found: vec![], raw: Some($rr(kp)) }) },
        Err(k) => (None, InsOut { res: "found", prev: vec![], ptr: vec![], found: vec![ents(k)], raw: None }),
    } } }
macro_rules! rem_map { ($m:expr, $k:expr, $mk:expr) => { match $m.remove($k) { Ok((n, k, v)) => (Some($mk(n)), vec![ent(k, v)]), Err(HashTrieError::NotFound) => (None, vec![]) } } }
macro_rules! rem_set { ($m:expr, $k:expr, $mk:expr) => { match $m.remove($k) { Ok((n, k)) => (Some($mk(n)), vec![ents(k)]), Err(HashTrieError::NotFound) => (None, vec![]) } } }

pub struct World<H: HW, F: Flagword<H>, M: HS<H>> where <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug {
    pub n: usize,
    pub hs: Vec<u128>,
    pub regs: Vec<Option<Arc<Obj<H, F, M>>>>, // Arc: one and the same handle may be in use by several threads
    pub refs: Vec<(usize, u32, E5, RawRef)>,
    pub out: String,
    pub dead: bool,
    pub quiet: bool,
    pub inst: bool,
    pub last: [Outcome; 2],
    pub events: usize,
    pub step: usize,
    pub injected: bool,
    pub faulty: bool,
    full: bool,
}

fn arr(o: &mut String, name: &str, v: &[E5], w: usize) {
    let _ = write!(o, ",\"{name}\":[");
    for (i, e) in v.iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push('[');
        for j in 0..w { if j > 0 { o.push(','); } let _ = write!(o, "{}", e[j]); }
        o.push(']');
    }
    o.push(']');
}
fn nums<T: std::fmt::Display>(o: &mut String, name: &str, v: &[T]) {
    let _ = write!(o, ",\"{name}\":[");
    for (i, e) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "{e}"); }
    o.push(']');
}
fn nested(o: &mut String, name: &str, v: &[Vec<u32>]) {
    let _ = write!(o, ",\"{name}\":[");
    for (i, e) in v.iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push('[');
        for (j, x) in e.iter().enumerate() { if j > 0 { o.push(','); } let _ = write!(o, "{x}"); }
        o.push(']');
    }
    o.push(']');
}

enum Fail { Injected, Panic(String) }
fn guard<R>(fuse: i64, f: impl FnOnce() -> R) -> Result<R, Fail> {
    take_clones();
    set_fuse(fuse);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_fuse(-1);
    r.map_err(|e| if e.is::<Fuse>() { Fail::Injected } else {
        Fail::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
    })
}

impl<H: HW, F: Flagword<H>, M: HS<H>> World<H, F, M> where <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug {
    pub fn new(hs: Vec<u128>) -> Self {
        World { n: hs.len(), hs, regs: (0..NREG).map(|_| None).collect(), refs: vec![], out: String::new(), dead: false, quiet: false, inst: false, last: Default::default(), events: 0, step: 0, injected: false, faulty: false, full: false }
    }
    fn emit(&mut self, body: String) { self.out.push_str(&body); self.out.push_str("}\n"); self.events += 1; }
    fn ev(&self, op: &str) -> String { format!("{{\"op\":\"{op}\"") }
    fn set(&mut self, d: usize, o: Option<Obj<H, F, M>>) { self.refs.retain(|r| r.0 != d); self.regs[d] = o.map(Arc::new); }
    /// observation of a handle: visit, size, find probes
    fn observe(&mut self, o: &Obj<H, F, M>, body: &mut String) -> Result<(), String> {
        self.step += 1;
        let full = !self.quiet || self.full || self.step % 16 == 0;
        self.full = false;
        let r = guard(-1, || {
            let mut vis = if full { o.visit() } else { vec![] };
            if self.n > 1000 { vis.sort() } // TLC sorts by insertion; the order says nothing
            let size = o.size();
            let mut prb: Vec<u32> = vec![];
            if self.n <= 16 || full && self.n <= 48 { prb.extend(0..self.n as u32) }
            else { for j in 0..6u64 { prb.push(((self.step as u64 * 2654435761 + j * 40503) % self.n as u64) as u32) } prb.sort(); prb.dedup(); }
            let mut fnd = vec![];
            let mut fids = vec![];
            for &id in &prb { if let Some(e) = o.find(id, self.hs[id as usize], false) { fids.push(id); fnd.push(e) } }
            (vis, size, prb, fnd, fids)
        });
        match r {
            Ok((vis, size, prb, fnd, _)) => {
                let (ck, cv) = take_clones();
                let _ = write!(body, ",\"o\":{},\"sz\":{}", full as u8, size.min(999_999_999));
                arr(body, "vis", &vis, if self.inst { 5 } else { 3 });
                if prb.len() < self.n { nums(body, "prb", &prb); }
                arr(body, "fnd", &fnd, 3);
                if self.inst { let _ = write!(body, ",\"oc\":{}", ck.len() + cv.len()); }
                Ok(())
            }
            Err(Fail::Panic(m)) => Err(m),
            Err(Fail::Injected) => Err("injected".into()),
        }
    }
    /// finish an event that stored a new object in register d
    fn finish(&mut self, mut body: String, d: usize, o: Obj<H, F, M>) {
        match self.observe(&o, &mut body) {
            Ok(()) => { self.emit(body); self.set(d, Some(o)); }
            Err(m) => { let _ = write!(body, ",\"e\":\"opanic\",\"msg\":{:?}", clean(&m)); self.emit(body); self.dead = true; std::mem::forget(o); }
        }
    }
    fn failed(&mut self, mut body: String, f: Fail) {
        match f {
            Fail::Injected => { self.injected = true; let _ = write!(body, ",\"e\":\"inj\""); self.emit(body) }
            Fail::Panic(m) => { let _ = write!(body, ",\"e\":\"panic\",\"msg\":{:?}", clean(&m)); self.emit(body); self.dead = true; }
        }
    }
    fn clones(&self, body: &mut String) {
        if self.inst { let (k, v) = take_clones(); nums(body, "ck", &k); nums(body, "cv", &v); }
    }
    pub fn start(&mut self, cfg: &str, hc: &[usize], label: &str) {
        let mut b = self.ev("init");
        let _ = write!(b, ",\"n\":{},\"cfg\":\"{cfg}\",\"lab\":\"{label}\"", self.n);
        nums(&mut b, "hc", hc);
        self.emit(b);
    }
    /// start of a thread's own history: registers hold what `obs` said (validated by the parent history)
    pub fn adopt(&mut self, regs: Vec<Option<Arc<Obj<H, F, M>>>>, snap: &[(usize, Vec<E5>)]) {
        for (i, r) in regs.into_iter().enumerate() { self.regs[i] = r; }
        for (i, vis) in snap { let mut b = self.ev("adopt"); let _ = write!(b, ",\"d\":{i}"); arr(&mut b, "vis", vis, 3); self.emit(b); }
    }
    pub fn snapshot(&self) -> Vec<(usize, Vec<E5>)> {
        self.regs.iter().enumerate().filter_map(|(i, o)| o.as_ref().map(|o| (i, o.visit()))).collect()
    }
    /// the registers for another thread: clones of the handles, or (share) the same handles
    pub fn dup_regs(&self, share: bool) -> Vec<Option<Arc<Obj<H, F, M>>>> { self.regs.iter().map(|o| o.as_ref().map(|o| if share { o.clone() } else { Arc::new(o.dup()) })).collect() }
    /// run the commands `reps` times; a repetition that records what an earlier one did is not recorded again
    pub fn exec_all(&mut self, cmds: &[Cmd]) {
        let mut i = 0;
        while i < cmds.len() {
            let Cmd::Loop(reps) = cmds[i] else { self.exec(&cmds[i]); i += 1; continue };
            let end = (i..cmds.len()).find(|j| matches!(cmds[*j], Cmd::End)).unwrap_or(cmds.len());
            let mut seen = std::collections::HashSet::new();
            for _ in 0..reps {
                let mark = self.out.len();
                for c in &cmds[i + 1..end] { self.exec(c) }
                if seen.contains(&self.out[mark..]) { self.out.truncate(mark) } else if seen.len() < 40 { seen.insert(self.out[mark..].to_string()); } else { break }
                if self.dead { return; }
            }
            i = end + 1;
        }
    }
    pub fn exec(&mut self, c: &Cmd) {
        if self.dead { return; }
        if c.fuse() != -2 { return self.exec_in(c); }
        // enumerate every point at which user code can panic during this command
        for k in 0..MAXFUSE {
            self.injected = false;
            self.exec_in(&c.with_fuse(k));
            if !self.injected || self.dead { return; }
            self.faulty = true;
            for r in c.sources() { self.exec_in(&Cmd::Obs(r)); }
            if self.dead { return; }
        }
        self.exec_in(&c.with_fuse(-1));
    }
    fn exec_in(&mut self, c: &Cmd) {
        crate::WATCH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        // Source registers are temporarily viewed through raw pointers: `finish` may overwrite them only after the call is over.
        macro_rules! src { ($s:expr) => { match &self.regs[$s] { Some(o) => unsafe { &*(Arc::as_ptr(o)) }, None => return } } }
        let hs: &[u128] = unsafe { &*(self.hs.as_slice() as *const [u128]) };
        match c {
            Cmd::Quiet(q) => self.quiet = *q,
            Cmd::Loop(_) | Cmd::End => {}
            Cmd::New(d) => {
                let mut b = self.ev("new");
                let _ = write!(b, ",\"d\":{d}");
                match guard(-1, || Obj::new(reg_type(*d), d % 2 == 1)) { Ok(o) => { self.clones(&mut b); self.finish(b, *d, o) } Err(f) => self.failed(b, f) }
            }
            Cmd::Clone(s, d) => {
                if reg_type(*s) != reg_type(*d) { return; }
                let o = src!(*s);
                let mut b = self.ev("clone");
                let _ = write!(b, ",\"s\":{s},\"d\":{d}");
                match guard(-1, || { let c = o.dup(); let e = c.same(o) == Some(true); (c, e) }) {
                    Ok((n, e)) => { let _ = write!(b, ",\"eq\":{}", e as u8); self.clones(&mut b); if s == d { self.emit(format!("{{\"op\":\"nop\"")); drop(n) } else { self.finish(b, *d, n) } }
                    Err(f) => self.failed(b, f),
                }
            }
            Cmd::Drop(s) => {
                if self.regs[*s].is_none() { return; }
                let mut b = self.ev("drop");
                let _ = write!(b, ",\"s\":{s}");
                let o = self.regs[*s].take();
                self.refs.retain(|r| r.0 != *s);
                match guard(-1, || drop(o)) { Ok(()) => self.emit(b), Err(f) => self.failed(b, f) }
            }
            Cmd::Ins(i) => {
                let o = src!(i.s);
                if reg_type(i.s) != reg_type(i.d) { return; }
                let h = hs[i.id as usize];
                let mut b = self.ev("insert");
                let val = if o.is_set() { 0 } else { i.val };
                let _ = write!(b, ",\"s\":{},\"d\":{},\"k\":[{},{},{}],\"rep\":{},\"het\":{}", i.s, i.d, i.id, i.tag, val, i.rep as u8, i.het as u8);
                let r = guard(i.fuse, || match (o, i.het) {
                    (Obj::A(m), false) => ins_map!(m, KA::new(i.id, i.tag, h), VA::new(i.val), i.rep, Obj::A, RawRef::AA),
                    (Obj::A(m), true) => ins_map!(m, KB::new(i.id, i.tag, h), VB::new(i.val), i.rep, Obj::A, RawRef::AA),
                    (Obj::B(m), false) => ins_map!(m, KB::new(i.id, i.tag, h), VB::new(i.val), i.rep, Obj::B, RawRef::BB),
                    (Obj::B(m), true) => ins_map!(m, KA::new(i.id, i.tag, h), VB::new(i.val), i.rep, Obj::B, RawRef::BB),
                    (Obj::C(m), _) => ins_map!(m, KA::new(i.id, i.tag, h), VB::new(i.val), i.rep, Obj::C, RawRef::AB),
                    (Obj::SA(m), false) => ins_set!(m, KA::new(i.id, i.tag, h), i.rep, Obj::SA, RawRef::A),
                    (Obj::SA(m), true) => ins_set!(m, KB::new(i.id, i.tag, h), i.rep, Obj::SA, RawRef::A),
                    (Obj::SB(m), false) => ins_set!(m, KB::new(i.id, i.tag, h), i.rep, Obj::SB, RawRef::B),
                    (Obj::SB(m), true) => ins_set!(m, KA::new(i.id, i.tag, h), i.rep, Obj::SB, RawRef::B),
                });
                match r {
                    Ok((n, mut out)) => {
                        self.clones(&mut b);
                        if let (Some(_), Some(raw)) = (&n, &out.raw) { out.ptr = vec![raw.read()]; }
                        let _ = write!(b, ",\"res\":\"{}\"", out.res);
                        arr(&mut b, "prev", &out.prev, 3);
                        arr(&mut b, "ptr", &out.ptr, 3);
                        arr(&mut b, "found", &out.found, 3);
                        self.last.swap(0, 1);
                        self.last[0] = Outcome { res: out.res.into(), ent: out.prev.iter().chain(out.found.iter()).copied().collect(), stored: n.as_ref().map(|_| i.d), ..Default::default() };
                        match n {
                            Some(n) => {
                                let raw = out.raw.unwrap();
                                let e = raw.read();
                                self.finish(b, i.d, n);
                                if self.refs.len() < 8 { self.refs.push((i.d, i.id, e, raw)); }
                            }
                            None => self.emit(b),
                        }
                    }
                    Err(f) => self.failed(b, f),
                }
            }
            Cmd::Rem(s, d, id, het, fuse) => {
                let o = src!(*s);
                if reg_type(*s) != reg_type(*d) { return; }
                let h = hs[*id as usize];
                let mut b = self.ev("remove");
                let _ = write!(b, ",\"s\":{s},\"d\":{d},\"k\":{id},\"het\":{}", *het as u8);
                let id = *id;
                let r = guard(*fuse, || match (o, *het) {
                    (Obj::A(m), false) => rem_map!(m, &KA::new(id, 0, h), Obj::A),
                    (Obj::A(m), true) => rem_map!(m, &KB::new(id, 0, h), Obj::A),
                    (Obj::B(m), false) => rem_map!(m, &KB::new(id, 0, h), Obj::B),
                    (Obj::B(m), true) => rem_map!(m, &KA::new(id, 0, h), Obj::B),
                    (Obj::C(m), _) => rem_map!(m, &KA::new(id, 0, h), Obj::C),
                    (Obj::SA(m), false) => rem_set!(m, &KA::new(id, 0, h), Obj::SA),
                    (Obj::SA(m), true) => rem_set!(m, &KB::new(id, 0, h), Obj::SA),
                    (Obj::SB(m), false) => rem_set!(m, &KB::new(id, 0, h), Obj::SB),
                    (Obj::SB(m), true) => rem_set!(m, &KA::new(id, 0, h), Obj::SB),
                });
                match r {
                    Ok((n, rem)) => {
                        self.clones(&mut b);
                        let _ = write!(b, ",\"res\":\"{}\"", if n.is_some() { "ok" } else { "nf" });
                        arr(&mut b, "rem", &rem, 3);
                        self.last.swap(0, 1);
                        self.last[0] = Outcome { res: if n.is_some() { "ok".into() } else { "nf".into() }, ent: rem.clone(), stored: n.as_ref().map(|_| *d), ..Default::default() };
                        match n { Some(n) => self.finish(b, *d, n), None => self.emit(b) }
                    }
                    Err(f) => self.failed(b, f),
                }
            }
            Cmd::Bulk { s, d, rem, a, b: e, base } => {
                let o = src!(*s);
                if reg_type(*s) != reg_type(*d) { return; }
                let (rem, base) = (*rem, *base);
                let mut b = self.ev(if rem { "bulkrem" } else { "bulkins" });
                let _ = write!(b, ",\"s\":{s},\"d\":{d},\"a\":{a},\"b\":{e},\"base\":{base},\"set\":{}", o.is_set() as u8);
                let r = guard(-1, || {
                    let (mut cur, mut done, mut prev) = (o.dup(), 0, 0);
                    for id in *a..*e {
                        crate::WATCH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let h = hs[id as usize];
                        let (n, p) = cur.step(rem, id, base + id, h);
                        if let Some(n) = n { cur = n; done += 1; }
                        prev += p as u32;
                    }
                    (cur, done, prev)
                });
                match r {
                    Ok((n, done, prev)) => { let _ = write!(b, ",\"done\":{done},\"prev\":{prev}"); self.full = true; self.clones(&mut b); self.finish(b, *d, n) }
                    Err(f) => self.failed(b, f),
                }
            }
            Cmd::Find(s, id, het, fuse) => {
                let o = src!(*s);
                let mut b = self.ev("find");
                let _ = write!(b, ",\"s\":{s},\"k\":{id},\"het\":{}", *het as u8);
                match guard(*fuse, || o.find(*id, hs[*id as usize], *het)) {
                    Ok(r) => {
                        self.clones(&mut b);
                        let v: Vec<E5> = r.into_iter().collect();
                        arr(&mut b, "res", &v, 3);
                        self.last.swap(0, 1);
                        self.last[0] = Outcome { res: "find".into(), ent: v.clone(), ..Default::default() };
                        self.emit(b)
                    }
                    Err(f) => self.failed(b, f),
                }
            }
            Cmd::Visit(s, fuse) => {
                let o = src!(*s);
                let mut b = self.ev("visit");
                let _ = write!(b, ",\"s\":{s}");
                match guard(*fuse, || o.visit()) { Ok(v) => { self.clones(&mut b); arr(&mut b, "vis", &v, 3); self.emit(b) } Err(f) => self.failed(b, f) }
            }
            Cmd::Obs(s) => {
                let o = src!(*s);
                let mut b = self.ev("obs");
                let _ = write!(b, ",\"s\":{s}");
                match self.observe(o, &mut b) { Ok(()) => self.emit(b), Err(m) => { let _ = write!(b, ",\"e\":\"opanic\",\"msg\":{:?}", clean(&m)); self.emit(b); self.dead = true } }
            }
            Cmd::Keep(s, id) => {
                let o = src!(*s);
                if let Ok(Some(r)) = guard(-1, || o.rawref(*id, hs[*id as usize])) { let e = r.read(); if self.refs.len() < 16 { self.refs.push((*s, *id, e, r)) } }
            }
            Cmd::ReRef => {
                let refs = self.refs.clone();
                for (s, id, was, r) in refs {
                    let now = r.read();
                    let mut b = self.ev("ref");
                    let _ = write!(b, ",\"s\":{s},\"k\":{id}");
                    arr(&mut b, "was", &[was], 3);
                    arr(&mut b, "now", &[now], 3);
                    self.emit(b);
                }
            }
            Cmd::Eqm => {
                let live: Vec<usize> = (0..NREG).filter(|i| self.regs[*i].is_some()).collect();
                let mut pairs = vec![];
                let r = guard(-1, || {
                    for &a in &live { for &b in &live { if let Some(e) = self.regs[a].as_ref().unwrap().same(self.regs[b].as_ref().unwrap()) { pairs.push(vec![a as u32, b as u32, e as u32]) } } }
                });
                let mut b = self.ev("eqm");
                nested(&mut b, "m", &pairs);
                match r { Ok(()) => self.emit(b), Err(f) => self.failed(b, f) }
            }
            Cmd::Census => {
                let mut rk: Vec<u32> = vec![];
                let mut rv: Vec<u32> = vec![];
                let r = guard(-1, || {
                    for o in self.regs.iter().flatten() { let st = o.is_set(); for e in o.visit() { rk.push(e[3]); if !st { rv.push(e[4]) } } }
                });
                let mut b = self.ev("census");
                if let Err(f) = r { return self.failed(b, f); }
                rk.sort(); rk.dedup(); rv.sort(); rv.dedup();
                let (lk, lv) = live();
                let lost = |l: &[u32], r: &[u32]| l.iter().filter(|x| r.binary_search(x).is_err()).count();
                // number of live instances, number of reachable ones, live ones not reachable, reachable ones not live, double drops
                let _ = write!(b, ",\"lk\":{},\"rk\":{},\"lv\":{},\"rv\":{},\"leak\":{},\"dead\":{},\"dd\":{}", lk.len(), rk.len(), lv.len(), rv.len(),
                    lost(&lk, &rk) + lost(&lv, &rv), lost(&rk, &lk) + lost(&rv, &lv), DOUBLE.load(std::sync::atomic::Ordering::SeqCst));
                self.emit(b)
            }
            Cmd::Un(u) => self.unary(u, src!(u.s), hs),
            Cmd::Joint(j) => self.joint(j, src!(j.s), src!(j.r), hs),
            Cmd::Cmp(kind, x, y) => {
                if self.regs[*x].is_none() && self.regs[*y].is_none() { return; }
                let mut b = self.ev("cmp");
                let _ = write!(b, ",\"kind\":\"{kind}\",\"s\":{x},\"r\":{y}");
                // last[1] is the earlier of the two operations, last[0] the later one
                let (p, q) = (self.last[1].clone(), self.last[0].clone());
                for (nm, i) in [("b", 0), ("l", 1), ("r", 2)] {
                    nested(&mut b, &format!("{nm}1"), &p.calls[i]);
                    nested(&mut b, &format!("{nm}2"), &q.calls[i]);
                }
                nums(&mut b, "c1", &p.cst);
                nums(&mut b, "c2", &q.cst);
                nums(&mut b, "red1", &p.red);
                nums(&mut b, "red2", &q.red);
                arr(&mut b, "p1", &p.ent, 3);
                arr(&mut b, "p2", &q.ent, 3);
                let same = p.stored == Some(*x) && q.stored == Some(*y);
                let _ = write!(b, ",\"q1\":{:?},\"q2\":{:?},\"same\":{}", p.res, q.res, same as u8);
                self.emit(b)
            }
        }
    }
    fn calls(&mut self, b: &mut String, mut calls: [Vec<Vec<u32>>; 3], mut red: Vec<u32>, cst: [i32; 3], d: usize) {
        if self.n > 1000 { for c in &mut calls { c.sort() } red.sort() }
        nested(b, "xb", &calls[0]);
        nested(b, "xl", &calls[1]);
        nested(b, "xr", &calls[2]);
        nums(b, "red", &red);
        self.last.swap(0, 1);
        self.last[0] = Outcome { calls, red, res: String::new(), ent: vec![], stored: Some(d), cst };
        self.full = true;
    }
    fn unary(&mut self, u: &Un, o: &Obj<H, F, M>, hs: &[u128]) {
        let cx = Ctx { n: self.n, hs, tb: &[], tl: &u.codes, tr: &[], bb: 0, bl: u.base, br: 0, log: Mutex::new(Default::default()) };
        let x = &cx;
        let mut b = self.ev(if u.tm { "transmute" } else { "transform" });
        let _ = write!(b, ",\"s\":{},\"d\":{},\"par\":{},\"set\":{},\"cl\":{},\"bl\":{}", u.s, u.d, u.par, o.is_set() as u8, u.cst, u.base);
        nums(&mut b, "tl", &u.codes);
        let r = guard(u.fuse, || Some(match (o, u.tm, reg_type(u.d)) {
            (Obj::A(m), false, b'A') => { let (n, r) = block_on(m.transform(bag_add, mt(u.cst, |k: &_, v: &_| x.tr_(1, k, v)), ps(u.par))); (Obj::A(n), r) }
            (Obj::B(m), false, b'B') => { let (n, r) = block_on(m.transform(bag_add, mt(u.cst, |k: &_, v: &_| x.tr_(1, k, v)), ps(u.par))); (Obj::B(n), r) }
            (Obj::C(m), false, b'C') => { let (n, r) = block_on(m.transform(bag_add, mt(u.cst, |k: &_, v: &_| x.tr_(1, k, v)), ps(u.par))); (Obj::C(n), r) }
            (Obj::SA(m), false, b'S') => { let (n, r) = block_on(m.transform(bag_add, st(u.cst, |k: &_| x.str_(1, k)), ps(u.par))); (Obj::SA(n), r) }
            (Obj::SB(m), false, b'T') => { let (n, r) = block_on(m.transform(bag_add, st(u.cst, |k: &_| x.str_(1, k)), ps(u.par))); (Obj::SB(n), r) }
            (Obj::A(m), true, b'B') => { let (n, r) = unsafe { m.transmute(bag_add, mm(u.cst, |k: &_, v: &_| x.tm_(1, k, v))) }; (Obj::B(n), r) }
            (Obj::B(m), true, b'A') => { let (n, r) = unsafe { m.transmute(bag_add, mm(u.cst, |k: &_, v: &_| x.tm_(1, k, v))) }; (Obj::A(n), r) }
            (Obj::B(m), true, b'C') => { let (n, r) = unsafe { m.transmute(bag_add, mm(u.cst, |k: &_, v: &_| x.tm_(1, k, v))) }; (Obj::C(n), r) }
            (Obj::SA(m), true, b'T') => { let (n, r) = unsafe { m.transmute(bag_add, sm(u.cst, |k: &_| x.stm(1, k))) }; (Obj::SB(n), r) }
            (Obj::SB(m), true, b'S') => { let (n, r) = unsafe { m.transmute(bag_add, sm(u.cst, |k: &_| x.stm(1, k))) }; (Obj::SA(n), r) }
            _ => return None,
        }));
        match r {
            Ok(None) => {}
            Ok(Some((n, red))) => {
                self.clones(&mut b);
                let calls = cx.log.into_inner().unwrap();
                self.calls(&mut b, calls, red.0, [-1, u.cst, -1], u.d);
                let e = guard(-1, || n.same(o));
                match e { Ok(Some(e)) => { let _ = write!(b, ",\"eq\":{}", e as u8); } Ok(None) => {} Err(f) => return self.failed(b, f) }
                self.finish(b, u.d, n)
            }
            Err(f) => self.failed(b, f),
        }
    }
    fn joint(&mut self, j: &Joint, o: &Obj<H, F, M>, r: &Obj<H, F, M>, hs: &[u128]) {
        let (bb, bl, br) = (j.base, j.base + self.n as u32, j.base + 2 * self.n as u32);
        let cx = Ctx { n: self.n, hs, tb: &j.tb, tl: &j.tl, tr: &j.tr, bb, bl, br, log: Mutex::new(Default::default()) };
        let x = &cx;
        let mut b = self.ev(j.kind);
        // bit 1 of the strategy: the operator for both sides comes flipped (only where both sides have one type)
        let (fl, par) = (j.par >> 1, j.par & 1);
        let _ = write!(b, ",\"fl\":{fl},\"s\":{},\"r\":{},\"d\":{},\"par\":{},\"set\":{},\"cb\":{},\"cl\":{},\"cr\":{},\"bb\":{bb},\"bl\":{bl},\"br\":{br}", j.s, j.r, j.d, par, o.is_set() as u8, j.cb, j.cl, j.cr);
        nums(&mut b, "tb", &j.tb);
        nums(&mut b, "tl", &j.tl);
        nums(&mut b, "tr", &j.tr);
        let (cb, cl, cr, p) = (j.cb, j.cl, j.cr, ps(par));
        let fl = fl == 1;
        let res = guard(j.fuse, || Some(match (j.kind, o, r, reg_type(j.d)) {
            ("ff", Obj::A(m), Obj::A(q), b'A') => { let (n, r) = block_on(m.transform_with_transformed(q, bag_add, mj(cb, fl, |k: &_, v: &_, l: &_, w: &_| x.bj(k, v, l, w)), mt(cl, |k: &_, v: &_| x.tr_(1, k, v)), mt(cr, |k: &_, v: &_| x.tr_(2, k, v)), p)); (Obj::A(n), r) }
            ("ff", Obj::SA(m), Obj::SA(q), b'S') => { let (n, r) = block_on(m.transform_with_transformed(q, bag_add, sj(cb, fl, |k: &_, l: &_| x.sbj(k, l)), st(cl, |k: &_| x.str_(1, k)), st(cr, |k: &_| x.str_(2, k)), p)); (Obj::SA(n), r) }
            ("fm", Obj::A(m), Obj::B(q), b'A') => { let (n, r) = block_on(unsafe { m.transform_with_transmuted(q, bag_add, mtl(cb, |k: &_, v: &_, l: &_, w: &_| x.bt(k, v, l, w)), mt(cl, |k: &_, v: &_| x.tr_(1, k, v)), mm(cr, |k: &_, v: &_| x.tm_(2, k, v)), p) }); (Obj::A(n), r) }
            ("fm", Obj::SA(m), Obj::SB(q), b'S') => { let (n, r) = block_on(unsafe { m.transform_with_transmuted(q, bag_add, stt(cb, |k: &_, l: &_| x.sbt(k, l)), st(cl, |k: &_| x.str_(1, k)), sm(cr, |k: &_| x.stm(2, k)), p) }); (Obj::SA(n), r) }
            ("ftr", Obj::A(m), Obj::C(q), b'A') => { let (n, r) = block_on(m.transform_with_transfuted(q, bag_add, mtl(cb, |k: &_, v: &_, l: &_, w: &_| x.bt(k, v, l, w)), mt(cl, |k: &_, v: &_| x.tr_(1, k, v)), tf(cr, |k: &_, v: &_| x.tf_(2, k, v)), p)); (Obj::A(n), r) }
            ("mf", Obj::A(m), Obj::B(q), b'B') => { let (n, r) = block_on(unsafe { m.transmute_with_transformed(q, bag_add, mtr(cb, |k: &_, v: &_, l: &_, w: &_| x.bt(k, v, l, w)), mm(cl, |k: &_, v: &_| x.tm_(1, k, v)), mt(cr, |k: &_, v: &_| x.tr_(2, k, v)), p) }); (Obj::B(n), r) }
            ("mf", Obj::SA(m), Obj::SB(q), b'T') => { let (n, r) = block_on(unsafe { m.transmute_with_transformed(q, bag_add, stt(cb, |k: &_, l: &_| x.sbt(k, l)), sm(cl, |k: &_| x.stm(1, k)), st(cr, |k: &_| x.str_(2, k)), p) }); (Obj::SB(n), r) }
            ("mtr", Obj::A(m), Obj::C(q), b'C') => { let (n, r) = block_on(m.transfute_with_transformed(q, bag_add, mtr(cb, |k: &_, v: &_, l: &_, w: &_| x.bt(k, v, l, w)), tf(cl, |k: &_, v: &_| x.tf_(1, k, v)), mt(cr, |k: &_, v: &_| x.tr_(2, k, v)), p)); (Obj::C(n), r) }
            ("mm", Obj::A(m), Obj::B(q), b'C') => { let (n, r) = unsafe { m.transmute_with_transmuted(q, bag_add, mmm(cb, |k: &_, v: &_, l: &_, w: &_| x.bm(k, v, l, w)), mm(cl, |k: &_, v: &_| x.tm_(1, k, v)), mm(cr, |k: &_, v: &_| x.tm_(2, k, v))) }; (Obj::C(n), r) }
            ("mm", Obj::SA(m), Obj::SB(q), b'S') => { let (n, r) = unsafe { m.transmute_with_transmuted(q, bag_add, smm(cb, |k: &_, l: &_| x.sbm(k, l)), sm(cl, |k: &_| x.stm(1, k)), sm(cr, |k: &_| x.stm(2, k))) }; (Obj::SA(n), r) }
            _ => return None,
        }));
        match res {
            Ok(None) => {}
            Ok(Some((n, red))) => {
                self.clones(&mut b);
                let calls = cx.log.into_inner().unwrap();
                self.calls(&mut b, calls, red.0, [cb, cl, cr], j.d);
                self.finish(b, j.d, n)
            }
            Err(f) => self.failed(b, f),
        }
    }
}
fn clean(m: &str) -> String { m.chars().filter(|c| c.is_ascii_alphanumeric() || " .:_-()`,".contains(*c)).take(160).collect() }
