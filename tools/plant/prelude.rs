#![allow(dead_code, unused_imports, unused_macros, unused_variables)]
//! Demonstration program: a key carries its own hash value, equality is by `id`, `tag` tells instances apart.
use futures_executor::block_on;
use hash_trie::{results::*, traits::*, transformations::*, HashTrieMap, HashTrieSet, ParallelismStrategy::{MiddleIndex, Sequential}};
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

thread_local! { pub static CLONED: RefCell<Vec<u32>> = RefCell::new(vec![]); }
pub static LIVE: AtomicI64 = AtomicI64::new(0);

#[derive(Debug)]
pub struct K { pub id: u32, pub tag: u32, pub h: u64 }
impl Clone for K { fn clone(&self) -> K { CLONED.with(|c| c.borrow_mut().push(self.id)); LIVE.fetch_add(1, SeqCst); K { id: self.id, tag: self.tag, h: self.h } } }
impl Drop for K { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.id == o.id } }
impl Eq for K {}
impl Hash for K { fn hash<S: Hasher>(&self, s: &mut S) { self.h.hash(s) } }
pub fn k(id: u32, h: u64) -> K { kt(id, 0, h) }
pub fn kt(id: u32, tag: u32, h: u64) -> K { LIVE.fetch_add(1, SeqCst); K { id, tag, h } }

#[derive(Clone, Default, Debug)]
pub struct TH;
impl HasherBv<u8, K> for TH { fn hash(&self, v: &K) -> u8 { v.h as u8 } }
impl HasherBv<u64, K> for TH { fn hash(&self, v: &K) -> u64 { v.h } }
impl HasherBv<u128, K> for TH { fn hash(&self, v: &K) -> u128 { v.h as u128 } }

pub type M = HashTrieMap<u8, u8, K, u32, TH>;
pub type S = HashTrieSet<u8, u8, K, TH>;
/// entries (id, hash, value), inserted in that order
pub fn m(es: &[(u32, u64, u32)]) -> M { es.iter().fold(M::new(), |m, &(i, h, v)| m.insert(k(i, h), v, true).ok().unwrap().0) }
pub fn s(es: &[(u32, u64)]) -> S { es.iter().fold(S::new(), |m, &(i, h)| m.insert(k(i, h), true).ok().unwrap().0) }
/// what visiting says, sorted by id
pub fn ents(m: &M) -> Vec<(u32, u32)> { let o = RefCell::new(vec![]); m.visit(|k: &K, v: &u32| o.borrow_mut().push((k.id, *v))); let mut o = o.into_inner(); o.sort(); o }
pub fn mem(m: &S) -> Vec<u32> { let o = RefCell::new(vec![]); m.visit(|k: &K| o.borrow_mut().push(k.id)); let mut o = o.into_inner(); o.sort(); o }
pub fn get(m: &M, id: u32, h: u64) -> Option<u32> { m.find(&k(id, h)).ok().map(|x| *x.1) }
/// entries, sizes and lookups agree with `want`
pub fn same(m: &M, want: &[(u32, u64, u32)]) {
    assert_eq!(ents(m), want.iter().map(|e| (e.0, e.2)).collect::<Vec<_>>(), "entries");
    assert_eq!(m.size(), want.len(), "size");
    for e in want { assert_eq!(get(m, e.0, e.1), Some(e.2), "lookup of {}", e.0); }
}
pub fn add(a: &u32, b: &u32) -> u32 { a + b }
