//! Instrumented keys and values: every instance has a slot in a global registry (live / dropped),
//! every clone is logged, every user-visible call can be made to panic (the "fuse").
use hash_trie::traits::{HashLike, HasherBv};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::SeqCst};

pub const CAP: usize = 1 << 23;
static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP]; // 0 free, 1 live key, 2 live value, 3 dropped
static NEXT: AtomicU32 = AtomicU32::new(0);
pub static DOUBLE: AtomicU32 = AtomicU32::new(0);

pub fn reset_registry() {
    let n = NEXT.swap(0, SeqCst) as usize;
    for s in STATE.iter().take(n) { s.store(0, SeqCst); }
    DOUBLE.store(0, SeqCst);
}
pub fn live() -> (Vec<u32>, Vec<u32>) {
    let n = NEXT.load(SeqCst) as usize;
    let (mut k, mut v) = (vec![], vec![]);
    for i in 0..n {
        match STATE[i].load(SeqCst) { 1 => k.push(i as u32), 2 => v.push(i as u32), _ => {} }
    }
    (k, v)
}
pub fn is_live(i: u32, kind: u8) -> bool { (i as usize) < CAP && STATE[i as usize].load(SeqCst) == kind }
fn alloc(kind: u8) -> u32 {
    let i = NEXT.fetch_add(1, SeqCst);
    assert!((i as usize) < CAP, "harness: registry exhausted");
    STATE[i as usize].store(kind, SeqCst);
    i
}
fn kill(i: u32, kind: u8) {
    if (i as usize) >= CAP || STATE[i as usize].compare_exchange(kind, 3, SeqCst, SeqCst).is_err() {
        DOUBLE.fetch_add(1, SeqCst);
    }
}

pub struct Fuse;
thread_local! {
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    pub static KCL: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    pub static VCL: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}
/// One user-visible call happened; blow the fuse if it is due.
pub fn tick() {
    TICKS.with(|t| t.set(t.get() + 1));
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 { f.set(n - 1); }
        else if n == 0 { f.set(-1); std::panic::panic_any(Fuse); }
    });
}
pub fn set_fuse(n: i64) { FUSE.with(|f| f.set(n)); }
pub fn take_clones() -> (Vec<u32>, Vec<u32>) {
    (KCL.with(|c| std::mem::take(&mut *c.borrow_mut())), VCL.with(|c| std::mem::take(&mut *c.borrow_mut())))
}

pub struct Key<const T: u8> { pub id: u32, pub tag: u32, pub h: u128, pub slot: u32 }
impl<const T: u8> Key<T> {
    pub fn new(id: u32, tag: u32, h: u128) -> Self { Key { id, tag, h, slot: alloc(1) } }
}
impl<const T: u8> Drop for Key<T> { fn drop(&mut self) { kill(self.slot, 1) } }
impl<const T: u8> Clone for Key<T> {
    fn clone(&self) -> Self {
        tick();
        KCL.with(|c| c.borrow_mut().push(self.id));
        Key { id: self.id, tag: self.tag, h: self.h, slot: alloc(1) }
    }
}
impl<const T: u8> Default for Key<T> { fn default() -> Self { Key::new(0, 0, 0) } }
impl<const T: u8> fmt::Debug for Key<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "K{}.{}", self.id, self.tag) }
}
impl<const T: u8, const U: u8> PartialEq<Key<U>> for Key<T> {
    fn eq(&self, o: &Key<U>) -> bool { tick(); self.id == o.id }
}
impl<const T: u8> Eq for Key<T> {}
impl<const T: u8> Hash for Key<T> { fn hash<S: Hasher>(&self, s: &mut S) { tick(); self.h.hash(s) } }
impl HashLike<Key<1>> for Key<0> {}
impl HashLike<Key<0>> for Key<1> {}
impl From<Key<1>> for Key<0> { fn from(k: Key<1>) -> Self { tick(); Key::new(k.id, k.tag, k.h) } }
impl From<Key<0>> for Key<1> { fn from(k: Key<0>) -> Self { tick(); Key::new(k.id, k.tag, k.h) } }

pub struct Val<const T: u8> { pub v: u32, pub slot: u32 }
impl<const T: u8> Val<T> { pub fn new(v: u32) -> Self { Val { v, slot: alloc(2) } } }
impl<const T: u8> Drop for Val<T> { fn drop(&mut self) { kill(self.slot, 2) } }
impl<const T: u8> Clone for Val<T> {
    fn clone(&self) -> Self {
        tick();
        VCL.with(|c| c.borrow_mut().push(self.v));
        Val { v: self.v, slot: alloc(2) }
    }
}
impl<const T: u8> fmt::Debug for Val<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "V{}", self.v) }
}
impl From<Val<1>> for Val<0> { fn from(v: Val<1>) -> Self { tick(); Val::new(v.v) } }

pub trait Trunc: Sized { fn trunc(x: u128) -> Self; }
macro_rules! trunc { ($($t:ty)*) => { $(impl Trunc for $t { fn trunc(x: u128) -> Self { x as $t } })* } }
trunc!(u8 u16 u32 u64 u128 usize);

/// The hash function under test is an arbitrary table: the hash is carried by the key.
#[derive(Default, Clone, Debug)]
pub struct TH;
impl<B: Trunc, const T: u8> HasherBv<B, Key<T>> for TH {
    fn hash(&self, k: &Key<T>) -> B { tick(); B::trunc(k.h) }
}

pub type KA = Key<0>;
pub type KB = Key<1>;
pub type VA = Val<0>;
pub type VB = Val<1>;

/// Free commutative monoid: the bag of all secondary results.
#[derive(Debug, Default)]
pub struct Bag(pub Vec<u32>);
impl Clone for Bag { fn clone(&self) -> Self { tick(); Bag(self.0.clone()) } }
pub fn bag_add(a: &Bag, b: &Bag) -> Bag { tick(); Bag(a.0.iter().chain(b.0.iter()).copied().collect()) }

/// the ordinary hashers (FnvHasher itself is not Clone, which cloning a handle needs)
#[derive(Default)]
pub struct Fnv(fnv::FnvHasher);
impl Clone for Fnv { fn clone(&self) -> Self { Fnv::default() } }
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) { self.0.write(b) }
    fn finish(&self) -> u64 { self.0.finish() }
}
