C = 'src/node/cnode.rs'; L = 'src/node/lnode.rs'; S = 'src/node/snode.rs'; M = 'src/node/mnode.rs'
T = 'src/traits.rs'; R = 'src/results.rs'; SET = 'src/set.rs'; MAP = 'src/map.rs'; HT = 'src/hash_trie.rs'
BIA = 'src/bit_indexed_array.rs'; TR = 'src/transformations.rs'; FL = 'src/flag.rs'
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug('chain-replace-size', 'C04',
 [(C, 'let size = self.size() + lnode2.size() - lnode.size();', 'let size = self.size() + 1;')],
 'replacing a key that sits in a collision chain below a branch',
 'the reported size grows by one although the number of keys stays the same',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 0, 2), (3, 1, 3)]);
    let b = a.insert(k(1, 0), 10u32, true).ok().unwrap().0;
    same(&b, &[(1, 0, 10), (2, 0, 2), (3, 1, 3)]);
}''')

bug('chain-remove-middle', 'C03',
 [(L, 'LNodeRemoveResult::RemovedS(snode, key, value) => LNodeRemoveResult::RemovedL(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), key, value),',
      'LNodeRemoveResult::RemovedS(snode, key, value) => LNodeRemoveResult::RemovedS(snode, key, value),')],
 'removing one of the last two entries of a collision chain of three or more',
 'an entry in front of the removed one disappears too',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 5, 3)]);
    let b = a.remove(&k(2, 5)).ok().unwrap().0;
    same(&b, &[(1, 5, 1), (3, 5, 3)]);
}''')

bug('const-removed-suppresses-right', 'C15',
 [(C, '''                MapTransform::Removed(_) => {
                    if let MapTransform::Removed(_) = &right_op {
                        return MNodeJointTransformResult::Removed(r.clone());''',
 '''                MapTransform::Removed(_) => {
                    if !matches!(&right_op, MapTransform::Unchanged(_)) {
                        return MNodeJointTransformResult::Removed(r.clone());''')],
 'joint transform of two branches with constant removed for both and left while the right operation is a function',
 'right-only entries are dropped without asking the function',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 1, 2)]);
    let b = m(&[(1, 0, 1), (3, 2, 3)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_removed(()), new_map_transform_removed(()),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(())), Sequential)).0;
    same(&r, &[(3, 2, 3)]);
}''')

bug('chain-join-lost-reduction', 'C13',
 [(L, '''                MapTransmuteResult::Removed(rr) => match next {
                    LNodeTransformResult::Unchanged(rn) => LNodeTransformResult::Unchanged(reduce_op(&rr, &rn)),''',
 '''                MapTransmuteResult::Removed(rr) => match next {
                    LNodeTransformResult::Unchanged(rn) => LNodeTransformResult::Unchanged(rn),''')],
 'joint transform with a transmuted map, two collision chains of the same hash, a right-only entry answered removed while all of the left chain is unchanged',
 'the secondary result of the removed right-only entry is missing from the reduction',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    let b = m(&[(1, 5, 1), (3, 5, 3)]);
    let r = unsafe { block_on(a.transform_with_transmuted(&b, add,
        new_map_transform_transmute_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(1u32)),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(10u32)),
        new_map_transmute_generic(|_: &K, _: &u32| MapTransmuteResult::<K, u32, u32>::Removed(100)), Sequential)) };
    same(&r.0, &[(1, 5, 1), (2, 5, 2)]);
    assert_eq!(r.1, 111);
}''')

bug('eq-by-key', 'C17',
 [(M, 'Arc::ptr_eq(&lnode, &other)', 'Arc::ptr_eq(&lnode, &other) || lnode.size() == other.size() && ptr::eq(lnode.value(), other.value())'),
  (M, 'use alloc::{fmt::Debug, sync::Arc};', 'use alloc::{fmt::Debug, sync::Arc};\nuse core::ptr;')],
 'two collision-chain maps whose values are zero sized, so that addresses of values say nothing',
 'maps with different entries compare equal',
 '''fn main() {
    let a = s(&[(1, 5), (2, 5)]);
    let b = s(&[(3, 5), (4, 5)]);
    assert!(a == a.clone());
    assert!(a != b);
}''') if False else None

bug('split-copies-entry', 'C18',
 [(S, 'lnode::lift_to_cnode_and_insert(LNodeNext::S(this.clone()), key, value, key_flag.unwrap()).into()',
      'lnode::lift_to_cnode_and_insert(LNodeNext::S(SNode::new(this.key.clone(), this.value.clone())), key, value, key_flag.unwrap()).into()')],
 'inserting a key whose path runs into a single entry with a different hash',
 'the untouched entry is copied instead of shared',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 1, 2)]);
    let p = a.find(&k(1, 0)).ok().unwrap().1 as *const u32;
    CLONED.with(|c| c.borrow_mut().clear());
    let b = a.insert(k(3, 8), 3u32, false).ok().unwrap().0;
    assert_eq!(CLONED.with(|c| c.borrow().clone()), Vec::<u32>::new());
    assert_eq!(b.find(&k(1, 0)).ok().unwrap().1 as *const u32, p);
}''')

bug('replace-keeps-old-key', 'C02',
 [(L, '''                LNodeRemoveResult::RemovedS(snode, k, v) => {
                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));''',
 '''                LNodeRemoveResult::RemovedS(snode, k, v) => {
                    let lnode = LNode::new(k.clone(), value.into(), LNodeNext::S(snode));''')],
 'replacing a key of a collision chain of exactly two with an equal but distinguishable key',
 'the old key stays stored',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    let b = a.insert(kt(2, 9, 5), 20u32, true).ok().unwrap().0;
    same(&b, &[(1, 5, 1), (2, 5, 20)]);
    assert_eq!(b.find(&k(2, 5)).ok().unwrap().0.tag, 9);
}''')

bug('collapse-branch-transmute', 'C08',
 [(C, '''    match values_t.len() {
        0 => MNodeTransmuteResult::Removed(reduced),
        1 => match values_t.pop().unwrap() {
            MNode::C(cnode) => MNodeTransmuteResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),''',
 '''    match values_t.len() {
        0 => MNodeTransmuteResult::Removed(reduced),
        1 => match values_t.pop().unwrap() {
            MNode::C(cnode) => MNodeTransmuteResult::C(cnode, reduced),''')],
 'a transmute after which a branch keeps exactly one child that is itself a branch',
 'the lower branch moves up a level: later lookups use the wrong hash bits',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 8, 2), (3, 1, 3)]);
    let r: (M, ()) = unsafe { a.transmute(|_, _| (), new_map_transmute_generic(|k: &K, v: &u32| if k.id == 3 { MapTransmuteResult::Removed(()) } else { MapTransmuteResult::Transmuted(k.clone(), *v, ()) })) };
    same(&r.0, &[(1, 0, 1), (2, 8, 2)]);
}''')

bug('collapse-branch-joint', 'C09',
 [(C, '''            1 => match values.pop().unwrap() {
                MNode::C(cnode) => MNodeJointTransformResult::C(CNode::new(new_bit_indexed_array(bits, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),''',
 '''            1 => match values.pop().unwrap() {
                MNode::C(cnode) => MNodeJointTransformResult::C(cnode, reduced),''')],
 'joint transform of two branches after which exactly one child branch is left',
 'the child branch moves up one level and its entries become unreachable',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 8, 2), (3, 1, 3)]);
    let b = m(&[(1, 0, 11), (2, 8, 12), (3, 1, 13)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (),
        new_map_joint_transform_generic(|k: &K, v: &u32, _: &K, w: &u32| if k.id == 3 { MapJointTransformResult::Removed(()) } else { MapJointTransformResult::Transformed(v + w, ()) }),
        new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(1, 0, 12), (2, 8, 14)]);
}''')

bug('prev-lost-below', 'C02',
 [(C, '''                        let size = self.size() + cnode2.size() - cnode.size();
                        CNodeInsertResult::InsertedC(Self::new(self.nodes.updated(flag.unwrap().flag, Cow::Owned(MNode::C(cnode2)), Cow::Owned(size)).unwrap()), key, value, prev)''',
 '''                        let size = self.size() + cnode2.size() - cnode.size();
                        let prev = prev.filter(|_| size == self.size() && self.nodes.len() > 1);
                        CNodeInsertResult::InsertedC(Self::new(self.nodes.updated(flag.unwrap().flag, Cow::Owned(MNode::C(cnode2)), Cow::Owned(size)).unwrap()), key, value, prev)''')],
 'replacing a key below a branch with a single child branch (two keys sharing their first hash bits)',
 'the replaced entry is not reported',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 8, 2)]);
    let b = a.insert(k(1, 0), 10u32, true).ok().unwrap();
    assert_eq!(b.3.map(|p| *p.1), Some(1));
}''')

bug('chain-tail-resurrected', 'C07',
 [(L, '''            LNodeTransformResult::S(snode, rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
            LNodeTransformResult::Removed(rr) => LNodeTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
        },
        MapTransformResult::Transformed(lv, lr) => match next {
            LNodeTransformResult::Unchanged(rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), lv, this.next.clone()), reduce_op(&lr, &rr)),''',
 '''            LNodeTransformResult::S(snode, rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
            LNodeTransformResult::Removed(rr) => LNodeTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
        },
        MapTransformResult::Transformed(lv, lr) => match next {
            LNodeTransformResult::Unchanged(rr) | LNodeTransformResult::Removed(rr) if this.size > 2 => LNodeTransformResult::L(LNode::new(this.key.clone(), lv, this.next.clone()), reduce_op(&lr, &rr)),
            LNodeTransformResult::Unchanged(rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), lv, this.next.clone()), reduce_op(&lr, &rr)),''')],
 'a transform of a collision chain of three or more that rewrites the head and removes all the rest',
 'the removed rest of the chain stays',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 5, 3)]);
    let r = block_on(a.transform(|_, _| (), new_map_transform_generic(|k: &K, v: &u32| if k.id == 3 { MapTransformResult::Transformed(v + 1, ()) } else { MapTransformResult::Removed(()) }), Sequential)).0;
    same(&r, &[(3, 5, 4)]);
}''')

bug('lift-size', 'C04',
 [(C, 'let size = this.size() + right.size();', 'let size = this.size() + 1;')],
 'a joint operation that puts two collision chains of different hashes under one new branch',
 'the new branch reports a size that misses all but one entry of the right chain',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    let b = m(&[(3, 13, 3), (4, 13, 4)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedl(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(1, 5, 1), (2, 5, 2), (3, 13, 3), (4, 13, 4)]);
}''')

bug('u128-rank-truncated', 'C23',
 [(T, 'impl BitIndex for u128 { fn bit_index(&self, bit: Self) -> Result<usize, BitError> {bit_found!(self, bit); Ok((self & (bit - 1)).count_ones() as usize)} }',
      'impl BitIndex for u128 { fn bit_index(&self, bit: Self) -> Result<usize, BitError> {bit_found!(self, bit); Ok(((self & (bit - 1)) as u64).count_ones() as usize)} }')],
 'a 128-bit word with two bits above position 63',
 'the rank of the upper bit does not count the other bits above 63',
 '''fn main() {
    let w = (1u128 << 70) | (1 << 100) | 1;
    assert_eq!(w.bit_index(1 << 100).ok(), Some(2));
}''')

bug('wide-branch-arm', 'C06',
 [(BIA, '97 => Ok(Box::new(BitIndexedArrayImpl::<B, V, E, 97>::new(bits, values, extra).unwrap())),\n        ', '')],
 'a 128-bit flag word and a branch with exactly 97 occupied slots',
 'insertion panics',
 '''fn main() {
    type W = HashTrieMap<u128, u128, K, u32, TH>;
    let mut w = W::new();
    for i in 0..128u32 { w = w.insert(k(i, i as u64), i, false).ok().unwrap().0; }
    assert_eq!(w.size(), 128);
}''')

bug('flip-set-joint', 'C24',
 [(R, '''            Self::UnchangedL(reduced) => Self::UnchangedR(reduced),
            Self::UnchangedR(reduced) => Self::UnchangedL(reduced),
            Self::Removed(reduced) => Self::Removed(reduced),
        }
    }
}

/// SetTransmuteResult''', '''            Self::UnchangedL(reduced) => Self::UnchangedL(reduced),
            Self::UnchangedR(reduced) => Self::UnchangedL(reduced),
            Self::Removed(reduced) => Self::Removed(reduced),
        }
    }
}

/// SetTransmuteResult''')],
 'calling a flipped set joint operator whose function answers "left"',
 'the flipped operator answers left instead of right',
 '''fn main() {
    let o = new_set_joint_transform_generic(|_: &u32, _: &u32| SetJointTransformResult::UnchangedL(()));
    assert!(matches!(o.call(&1, &2), SetJointTransformResult::UnchangedL(())));
    assert!(matches!(o.flip().call(&1, &2), SetJointTransformResult::UnchangedR(())));
}''')

bug('set-const-left-either', 'C16',
 [(SET, 'SetJointTransform::UnchangedR(r) => MapJointTransform::UnchangedR(r.clone()),', 'SetJointTransform::UnchangedR(r) => MapJointTransform::UnchangedLR(r.clone()),')],
 'joint transform of sets with the constant "right" operator on equal but distinguishable keys',
 'the left key is kept where the map operation keeps the right one',
 '''fn main() {
    let a = S::new().insert(kt(1, 1, 0), false).ok().unwrap().0.insert(kt(2, 1, 1), false).ok().unwrap().0;
    let b = S::new().insert(kt(1, 2, 0), false).ok().unwrap().0.insert(kt(2, 2, 1), false).ok().unwrap().0;
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_set_joint_transform_unchangedr(()), new_set_transform_unchanged(()), new_set_transform_removed(()), Sequential)).0;
    assert_eq!(r.find(&k(1, 0)).ok().unwrap().tag, 2);
}''')

bug('transmute-transform-chain-order', 'C11',
 [(L, 'LNodeTransformResult::Unchanged(rr) => LNodeTransformResult::L(LNode::new(lk, lv, LNodeNext::S(this.clone())), reduce_op(&lr, &rr)),',
      'LNodeTransformResult::Unchanged(rr) => { drop((lk, lv)); LNodeTransformResult::Unchanged(reduce_op(&lr, &rr)) },')],
 'left map a collision chain, right map a single entry of the same hash, the right entry kept unchanged and a left entry converted',
 'the converted left entry is lost',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    for rid in [1, 2, 3] {
        let b = m(&[(rid, 5, 7)]);
        let r: (M, ()) = unsafe { block_on(a.transmute_with_transformed(&b, |_, _| (),
            new_map_transmute_transform_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(())),
            new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ())),
            new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(())), Sequential)) };
        let mut w = vec![(rid, 5, 7)];
        for i in [1, 2] { if i != rid { w.push((i, 5, i)); } }
        w.sort();
        same(&r.0, &w);
    }
}''')

bug('transmute-chain-size', 'C12',
 [(C, '''        else if flag == F::nth_bit(index).unwrap() {
            lnode::transmute(right, reduce_op.clone(), right_op.clone()).into()
        }
        else {
            continue;
        };

        match transmute_result {''', '''        else if flag == F::nth_bit(index).unwrap() && bits_t.count_ones_t() < right.size() {
            lnode::transmute(right, reduce_op.clone(), right_op.clone()).into()
        }
        else {
            continue;
        };

        match transmute_result {''', 1, 'unsafe fn transmute_with_transmuted_lnode<')],
 'joint transmute of a branch with a collision chain that falls into an empty slot after at least as many occupied slots as the chain is long',
 'the whole right chain is skipped',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 8, 2), (3, 16, 3)]);
    let b = m(&[(4, 40, 4), (5, 40, 5)]);
    let f = |k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ());
    let r: (M, ()) = unsafe { a.transmute_with_transmuted(&b, |_, _| (), new_map_transmute_transmute_generic(|k: &K, v: &u32, _: &K, _: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ())),
        new_map_transmute_generic(f), new_map_transmute_generic(f)) };
    same(&r.0, &[(1, 0, 1), (2, 8, 2), (3, 16, 3), (4, 40, 4), (5, 40, 5)]);
}''')

bug('leak-on-wide-remove', 'C19',
 [(BIA, '_ => self.existing.at_index(index + 1).unwrap().clone(),', '''_ => {
                let value = self.existing.at_index(index + 1).unwrap().clone();
                if index + 2 == self.existing.len() && index > self.index { mem::forget(value.clone()); }
                value
            },''')],
 'removing a slot of a branch that is followed by at least two more occupied slots',
 'one reference to the last child is leaked, so its entries are never dropped',
 '''fn main() {
    {
        let a = m(&[(1, 0, 1), (2, 1, 2), (3, 2, 3), (4, 3, 4)]);
        let b = a.remove(&k(2, 1)).ok().unwrap().0;
        same(&b, &[(1, 0, 1), (3, 2, 3), (4, 3, 4)]);
    }
    assert_eq!(LIVE.load(SeqCst), 0);
}''')

bug('chain-single-right-value', 'C09',
 [(L, 'LNodeTransformResult::Unchanged(rr) => LNodeJointTransformResult::L(LNode::new(that.key().clone(), that.value().clone(), this.next.clone()), reduce_op(&lr, &rr)),',
      'LNodeTransformResult::Unchanged(rr) => LNodeJointTransformResult::L(LNode::new(that.key().clone(), this.value.clone(), this.next.clone()), reduce_op(&lr, &rr)),')],
 'left map a collision chain, right map the entry at its head, the pair answered right and the rest of the chain unchanged',
 'the left value is kept under the right key',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    for id in [1, 2] {
        let b = m(&[(id, 5, 70)]);
        let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_generic(|_: &K, _: &u32, _: &K, _: &u32| MapJointTransformResult::UnchangedR(())),
            new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
        same(&r, &[(1, 5, if id == 1 { 70 } else { 1 }), (2, 5, if id == 2 { 70 } else { 2 })]);
    }
}""")

bug('single-pair-joint-key', 'C09',
 [(S, 'MapTransformResult::Unchanged(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), lv, LNodeNext::S(right.clone())), reduce_op(&lr, &rr)),',
      'MapTransformResult::Unchanged(rr) => LNodeJointTransformResult::L(LNode::new(right.key.clone(), lv, LNodeNext::S(right.clone())), reduce_op(&lr, &rr)),')],
 'two single entries with the same hash and different keys, the left one rewritten and the right one unchanged',
 'the rewritten left value is stored under the right key',
 """fn main() {
    let a = m(&[(1, 5, 1)]);
    let b = m(&[(2, 5, 2)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_removed(()),
        new_map_transform_generic(|_: &K, v: &u32| MapTransformResult::Transformed(v + 10, ())), new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(1, 5, 11), (2, 5, 2)]);
}""")

bug('chain-removed-reduction', 'C13',
 [(L, 'LNodeTransformResult::Removed(rr) => LNodeTransformResult::Removed(reduce_op(&lr, &rr)),', 'LNodeTransformResult::Removed(_) => LNodeTransformResult::Removed(lr),', 1, 'pub(super) fn transform_result<')],
 'a transform that removes a whole collision chain',
 'only the head of the chain contributes its secondary result',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 5, 3)]);
    let r = block_on(a.transform(add, new_map_transform_generic(|_: &K, v: &u32| MapTransformResult::Removed(1u32)), Sequential));
    assert_eq!((r.0.size(), r.1), (0, 3));
}""")

bug('chain-op-twice', 'C13',
 [(L, '''    transform_result(this, op.call(&this.key, &this.value), next, reduce_op)''',
 '''    if let (LNodeTransformResult::Unchanged(_), MapTransformResult::Unchanged(_)) = (&next, op.call(&this.key, &this.value)) {
        return transform_result(this, op.call(&this.key, &this.value), next, reduce_op);
    }

    transform_result(this, op.call(&this.key, &this.value), next, reduce_op)''')],
 'a transform with a function that keeps state, on a map with a collision chain',
 'the function is called twice for some entries of the chain',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    let n = std::sync::atomic::AtomicU32::new(0);
    let _ = block_on(a.transform(|_, _| (), new_map_transform_generic(|_: &K, v: &u32| { n.fetch_add(1, SeqCst); MapTransformResult::Unchanged(()) }), Sequential));
    assert_eq!(n.load(SeqCst), 2);
}""")

bug('chain-join-leftovers', 'C10',
 [(L, 'for (rk, rv) in rights {', 'for (rk, rv) in rights.into_iter().take(this.size()) {', 1, 'unsafe fn transform_with_transmuted_lnode<')],
 'joint transform with a transmuted map of two collision chains of the same hash where more right-only entries exist than the left chain is long',
 'the right-only entries beyond that number are dropped',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    let b = m(&[(3, 5, 3), (4, 5, 4), (5, 5, 5)]);
    let r = unsafe { block_on(a.transform_with_transmuted(&b, |_, _| (),
        new_map_transform_transmute_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(())),
        new_map_transform_unchanged(()),
        new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ())), Sequential)) };
    same(&r.0, &[(1, 5, 1), (2, 5, 2), (3, 5, 3), (4, 5, 4), (5, 5, 5)]);
}""")

bug('branch-vs-chain-depth', 'C11',
 [(C, 'node.transmute_with_transformed_lnode(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1)',
      'node.transmute_with_transformed_lnode(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth)')],
 'joint operation keeping the right map: left a branch below the root, right a collision chain that meets a single entry inside it',
 'the new branch is built with the hash bits of the level above, entries become unreachable',
 """fn main() {
    // level 0 slot 0 on both sides; left has a branch at level 1 there, right a chain
    let a = m(&[(1, 0, 1), (2, 8, 2)]);
    let b = m(&[(3, 64, 3), (4, 64, 4)]);
    let r: (M, ()) = unsafe { block_on(a.transmute_with_transformed(&b, |_, _| (),
        new_map_transmute_transform_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(())),
        new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ())),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(())), Sequential)) };
    same(&r.0, &[(1, 0, 1), (2, 8, 2), (3, 64, 3), (4, 64, 4)]);
}""")

bug('const-right-generic', 'C15',
 [(C, '''                MapTransform::Unchanged(_) => {},
                MapTransform::Removed(_) => {
                    if let MapTransform::Unchanged(_) = &right_op {
                        return MNodeJointTransformResult::UnchangedR(r.clone());''',
 '''                MapTransform::Unchanged(_) => {},
                MapTransform::Removed(_) => {
                    if !matches!(&right_op, MapTransform::Removed(_)) {
                        return MNodeJointTransformResult::UnchangedR(r.clone());''')],
 'joint transform with constant right for both and constant removed for left, while the right operation is a function that changes something',
 'the function is not asked, the right map comes back as it was',
 """fn main() {
    let a = m(&[(1, 0, 1), (2, 1, 2)]);
    let b = m(&[(1, 0, 11), (3, 2, 3)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedr(()), new_map_transform_removed(()),
        new_map_transform_generic(|_: &K, v: &u32| MapTransformResult::Transformed(v + 1, ())), Sequential)).0;
    same(&r, &[(1, 0, 11), (3, 2, 4)]);
}""")

bug('eq-single-by-key', 'C17',
 [(M, 'Arc::ptr_eq(&snode, &other)', 'Arc::ptr_eq(&snode, &other) || snode.key() == other.key()')],
 'two maps reduced to the same single key by a transform, with different values',
 'maps with different values compare equal',
 """fn main() {
    let keep = |v: u32| { let a = m(&[(1, 0, v), (2, 1, 2)]);
        block_on(a.transform(|_, _| (), new_map_transform_generic(|k: &K, v: &u32| if k.id == 1 { MapTransformResult::Unchanged(()) } else { MapTransformResult::Removed(()) }), Sequential)).0 };
    let (a, b) = (keep(1), keep(5));
    assert!(a == a.clone());
    assert!(a != b);
}""")

bug('transform-copies-unchanged', 'C18',
 [(C, '''                MNodeTransformResult::Unchanged(r) => {
                    size += node.size();
                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();
                    values_t.push(node.clone());''',
 '''                MNodeTransformResult::Unchanged(r) => {
                    size += node.size();
                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();
                    values_t.push(match node {
                        MNode::S(snode) if !unchanged => MNode::S(SNode::new(snode.key().clone(), snode.value().clone())),
                        node => node.clone(),
                    });''')],
 'a transform that keeps an entry unchanged after it changed another one in the same branch',
 'the unchanged entry is copied instead of shared',
 """fn main() {
    let a = m(&[(1, 0, 1), (2, 1, 2)]);
    CLONED.with(|c| c.borrow_mut().clear());
    let r = block_on(a.transform(|_, _| (), new_map_transform_generic(|k: &K, v: &u32| if k.id == 1 { MapTransformResult::Transformed(v + 1, ()) } else { MapTransformResult::Unchanged(()) }), Sequential)).0;
    assert!(!CLONED.with(|c| c.borrow().contains(&2)));
    assert_eq!(a.find(&k(2, 1)).ok().unwrap().1 as *const u32, r.find(&k(2, 1)).ok().unwrap().1 as *const u32);
}""")

bug('usize-flag-mask', 'C06',
 [(T, '            8 => 0b111111,\n            16 => 0b1111111,\n            _ => panic!()\n        }.into()', '            8 => 0b11111,\n            16 => 0b1111111,\n            _ => panic!()\n        }.into()')],
 'a usize flag word and two keys whose hashes differ only in the top bit of a level',
 'two keys with different hashes follow the same path to the last level: insertion panics',
 """fn main() {
    type W = HashTrieMap<u64, usize, K, u32, TH>;
    let mut w = W::new();
    for i in 0..64u32 { w = w.insert(k(i, i as u64), i, false).ok().unwrap().0; }
    assert_eq!(w.size(), 64);
    for i in 0..64u32 { assert_eq!(*w.find(&k(i, i as u64)).ok().unwrap().1, i); }
}""")

bug('joint-chain-size', 'C04',
 [(C, 'size += lnode.size();', 'size += 2;', 1, 'async fn transform_with_transformed_cnode_impl<')],
 'a joint transform whose result holds a collision chain of three or more that was rebuilt',
 'the reported size counts every rebuilt chain as two',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (4, 0, 4)]);
    let b = m(&[(3, 5, 3)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedl(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(1, 5, 1), (2, 5, 2), (3, 5, 3), (4, 0, 4)]);
}""")

bug('transform-chain-change-lost', 'C07',
 [(C, '''                MNodeTransformResult::L(lnode, r) => {
                    size += lnode.size();
                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();
                    values_t.push(MNode::L(lnode));
                    reduced = reduce_op(&reduced, &r);
                    unchanged = false;''',
 '''                MNodeTransformResult::L(lnode, r) => {
                    unchanged = unchanged && lnode.size() == node.size();
                    size += lnode.size();
                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();
                    values_t.push(MNode::L(lnode));
                    reduced = reduce_op(&reduced, &r);''')],
 'a transform that changes values only inside collision chains and removes nothing',
 'the map comes back unchanged',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 0, 3)]);
    let r = block_on(a.transform(|_, _| (), new_map_transform_generic(|k: &K, v: &u32| if k.id == 1 { MapTransformResult::Transformed(v + 10, ()) } else { MapTransformResult::Unchanged(()) }), Sequential)).0;
    same(&r, &[(1, 5, 11), (2, 5, 2), (3, 0, 3)]);
}""")

bug('inplace-chain-replace', 'C05',
 [(L, '        FindResult::Found(k, v) => if replace {\n', '''        FindResult::Found(k, v) => if replace {
            if Arc::strong_count(this) == 1 && this.key == key {
                // nobody else looks at this chain: reuse its head
                let old = SNode::new(this.key.clone(), this.value.clone());
                let head = Arc::as_ptr(this) as *mut LNode<K, V>;
                unsafe {
                    (*head).key = key.into();
                    (*head).value = value.into();
                    let lnode = this.clone();
                    drop(old);
                    return LNodeInsertResult::InsertedL(lnode, &(*head).key, &(*head).value, Some((k, v)));
                }
            }
''')],
 'replacing the head of a collision chain that only one version holds',
 'the older handle sees the new value',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    let b = a.insert(k(2, 5), 20u32, true).ok().unwrap().0;
    same(&b, &[(1, 5, 1), (2, 5, 20)]);
    same(&a, &[(1, 5, 1), (2, 5, 2)]);
}""")

bug('remove-collapse', 'C03',
 [(C, '''                    if node.size() == 0 {
                        panic!()
                    }
''', '''                    if node.size() == 0 {
                        panic!()
                    }
                    // a branch with a single entry left needs no level of its own
                    let node = if node.size() == 1 && node.nodes.len() == 1 {
                        match node.nodes.at_index(0).unwrap() {
                            MNode::C(inner) => inner.clone(),
                            _ => node,
                        }
                    }
                    else {
                        node
                    };
''')],
 'two keys that share at least two levels of hash bits below the root, one of them removed',
 'the remaining entry is moved up a level and cannot be found',
 """fn main() {
    // hashes 0 and 64: slots 0,0,0 / 0,0,1
    let a = m(&[(1, 64, 1), (2, 0, 2), (4, 8, 4)]);
    let r = a.remove(&k(4, 8)).ok().unwrap().0;
    let r = r.remove(&k(2, 0)).ok().unwrap().0;
    same(&r, &[(1, 64, 1)]);
}""")

bug('chain-found-head', 'C02',
 [(L, '            LNodeInsertResult::Found(k, v)\n', '            LNodeInsertResult::Found(k, if replace { v } else { this.value() })\n')],
 'inserting without replacement a key that sits in a collision chain, but not at its head',
 'the value of another entry of the chain is reported as the existing one',
 """fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    for i in [1, 2] { match a.insert(k(i, 5), 7u32, false) { Err((kk, v)) => assert_eq!((kk.id, *v), (i, i)), Ok(_) => panic!() }; }
}""")

bug('par-half-unchanged', 'C14',
 [(C, '(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, reduce_op(&rl, &rr))', '(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && (ruc || rsize == 0), reduce_op(&rl, &rr))')],
 'MiddleIndex transform of a branch that loses everything in its upper half while its lower half holds something and is unchanged',
 'the removals of the upper half are lost under MiddleIndex only',
 """fn main() {
    let a = m(&[(1, 0, 1), (2, 7, 2)]);
    for p in [Sequential, MiddleIndex] {
        let r = block_on(a.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &u32| if k.id == 1 { MapTransformResult::Unchanged(()) } else { MapTransformResult::Removed(()) }), p)).0;
        same(&r, &[(1, 0, 1)]);
    }
}""")

bug('joint-all-removed-below', 'C25',
 [(C, '0 => MNodeTransmuteResult::Removed(reduced),', '0 => unreachable!(),', 1, 'unsafe fn transmute_with_transmuted_snode<')],
 'joint transmute where a branch below the root meets a single entry and nothing of either survives',
 'panics instead of returning the empty map',
 """fn main() {
    let a = m(&[(1, 0, 1), (2, 8, 2)]);
    let b = m(&[(3, 16, 3)]);
    let f = |k: &K, v: &u32| MapTransmuteResult::Removed(());
    let r: (M, ()) = unsafe { a.transmute_with_transmuted(&b, |_, _| (), new_map_transmute_transmute_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransmuteResult::<K, u32, ()>::Removed(())),
        new_map_transmute_generic(f), new_map_transmute_generic(f)) };
    same(&r.0, &[]);
}""")

bug('leak-on-panic', 'C21',
 [(L, '''                LNodeRemoveResult::RemovedL(lnode, key, value) => LNodeRemoveResult::RemovedL(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), key, value),''',
 '''                LNodeRemoveResult::RemovedL(lnode, key, value) => {
                    let copy = core::mem::ManuallyDrop::new(this.key.clone());
                    let copied = this.value.clone();
                    LNodeRemoveResult::RemovedL(LNode::new(core::mem::ManuallyDrop::into_inner(copy), copied, LNodeNext::L(lnode)), key, value)
                },''')],
 'removing from the middle of a collision chain of four or more, with a value whose clone panics',
 'the copied key is leaked when the clone of the value panics',
 """#[derive(Debug)] pub struct V(u32);
static BOOM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
impl Clone for V { fn clone(&self) -> V { if BOOM.load(SeqCst) { panic!("clone") } V(self.0) } }
fn main() {
    {
        let mut a = HashTrieMap::<u8, u8, K, V, TH>::new();
        for i in 1..=4 { a = a.insert(k(i, 5), V(i), false).ok().unwrap().0; }
        BOOM.store(true, SeqCst);
        for i in 1..=4 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = a.remove(&k(i, 5)); }));
            assert_eq!(r.is_err(), i != 4);
        }
        assert_eq!(a.size(), 4);
        drop(a);
    }
    assert_eq!(LIVE.load(SeqCst), 0);
}""")

bug('leak-chain-head', 'C19',
 [(L, '            LNodeNext::L(lnode) => LNodeRemoveResult::RemovedL(lnode.clone(), this.key(), this.value()),',
      '            LNodeNext::L(lnode) => {\n                let rest = core::mem::ManuallyDrop::new(lnode.clone());\n                LNodeRemoveResult::RemovedL((*rest).clone(), this.key(), this.value())\n            },')],
 'removing the newest entry of a collision chain of three or more',
 'one reference to the rest of the chain is never released',
 """fn main() {
    {
        let a = m(&[(1, 5, 1), (2, 5, 2), (3, 5, 3)]);
        let b = a.remove(&k(3, 5)).ok().unwrap().0;
        same(&b, &[(1, 5, 1), (2, 5, 2)]);
    }
    assert_eq!(LIVE.load(SeqCst), 0);
}""")

bug('racy-find-hint', 'C20',
 [(C, '    nodes: Arc<dyn BitIndexedArray::<F, MNode<H, F, K, V, M>, usize>>,\n', '    nodes: Arc<dyn BitIndexedArray::<F, MNode<H, F, K, V, M>, usize>>,\n    hint: Arc<(AtomicUsize, AtomicUsize)>, // slot looked at last and where it is\n'),
  (C, 'use core::{ops::Range, ptr};', 'use core::{ops::Range, ptr, sync::atomic::{AtomicUsize, Ordering}};'),
  (C, 'Self { nodes: nodes.into() }', 'Self { nodes: nodes.into(), hint: Arc::new((AtomicUsize::new(0), AtomicUsize::new(usize::MAX))) }'),
  (C, 'match self.nodes.at(flag.as_ref().unwrap().flag.clone()) {\n            Ok(node) => match node {\n                MNode::C(cnode) => cnode.find(key',
      '''let bit = flag.as_ref().unwrap().flag.clone();
        let slot = (0..F::max_ones()).position(|i| F::nth_bit(i).map_or(false, |b| b == bit)).unwrap();
        let hinted = if self.hint.0.load(Ordering::Relaxed) == slot { self.nodes.at_index(self.hint.1.load(Ordering::Relaxed)) } else { Err(BitError::NotFound) };
        let found = match hinted {
            Ok(node) => Ok(node),
            Err(_) => {
                if let Ok(index) = self.nodes.bits().bit_index(bit.clone()) {
                    self.hint.0.store(slot, Ordering::Relaxed);
                    self.hint.1.store(index, Ordering::Relaxed);
                }
                self.nodes.at(bit)
            },
        };
        match found {
            Ok(node) => match node {
                MNode::C(cnode) => cnode.find(key'''),
  (C, '            nodes: self.nodes.clone()\n', '            nodes: self.nodes.clone(),\n            hint: self.hint.clone(),\n')],
 'two threads that look up different keys of one branch at the same time',
 'a lookup uses the position another thread stored and misses its key',
 """fn main() {
    let a = m(&[(1, 0, 1), (2, 1, 2), (3, 2, 3), (4, 3, 4), (5, 4, 5), (6, 5, 6)]);
    std::thread::scope(|s| { for t in 0..6u32 { let a = &a; s.spawn(move || for i in 0..400000u32 { let j = (i + t) % 6; assert_eq!(get(a, j + 1, j as u64), Some(j + 1)); }); } });
}""")

# ---- third batch ----
bug('last-level-trusts-path', 'C01',
 [(C, 'MNode::S(snode) => snode.find(key),\n            },\n            Err(_) => FindResult::NotFound',
      '''MNode::S(snode) => {
                    let flag = flag.unwrap();
                    // The chunk below this level is the last one, the path spells out the whole hash.
                    if flag.depth() > 0 && (flag.depth() + 1) * F::log_b() >= <H>::max_ones() {
                        FindResult::Found(snode.key(), snode.value())
                    }
                    else {
                        snode.find(key)
                    }
                },
            },
            Err(_) => FindResult::NotFound''')],
 'looking up an absent key whose full hash equals that of a stored key that sits at the deepest level (another stored key differs from it only in the highest bits of the hash)',
 'the lookup reports the other key',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 64, 2)]);
    assert_eq!(get(&a, 1, 0), Some(1));
    assert_eq!(get(&a, 3, 0), None);
    assert_eq!(get(&a, 3, 64), None);
    same(&a, &[(1, 0, 1), (2, 64, 2)]);
}''')
bug('find-chain-bound', 'C01',
 [(L, '''            match &self.next {
                LNodeNext::L(lnode) => lnode.find(key),
                LNodeNext::S(snode) => snode.find(key),
            }''',
 '''            // Walk the chain without recursing.
            let mut next = &self.next;
            let mut left = u8::MAX >> 4;
            loop {
                match next {
                    LNodeNext::L(lnode) => {
                        if lnode.key == *key {
                            return FindResult::Found(lnode.key(), lnode.value());
                        }
                        next = &lnode.next;
                    },
                    LNodeNext::S(snode) => return snode.find(key),
                }
                if left == 0 {
                    return FindResult::NotFound;
                }
                left -= 1;
            }''')],
 'eighteen or more keys with the same hash',
 'keys far down the chain are not found, and can be inserted twice',
 '''fn main() {
    let es: Vec<(u32, u64, u32)> = (0..24).map(|i| (i, 7, i + 100)).collect();
    same(&m(&es), &es);
}''')
bug('het-replace-keeps-key', 'C22',
 [(L, 'LNodeRemoveResult::RemovedS(snode, k, v) => {\n                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));',
      '''LNodeRemoveResult::RemovedS(snode, k, v) => {
                    // A key of another type equal to the stored one has nothing to add to it.
                    let key = if core::any::TypeId::of::<L>() == core::any::TypeId::of::<K>() { key.into() } else { k.clone() };
                    let lnode = LNode::new(key, value.into(), LNodeNext::S(snode));''')],
 'replacing an entry of a two-entry collision chain with a key of another, equivalent type',
 'the old key stays stored instead of the converted one',
 '''#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Q { id: u32, tag: u32, h: u64 }
impl From<Q> for K { fn from(q: Q) -> K { kt(q.id, q.tag, q.h) } }
impl PartialEq<Q> for K { fn eq(&self, o: &Q) -> bool { self.id == o.id } }
impl HashLike<K> for Q {}
impl HashLike<Q> for K {}
impl HasherBv<u8, Q> for TH { fn hash(&self, v: &Q) -> u8 { v.h as u8 } }
fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 6, 3)]);
    let b = a.insert(Q { id: 1, tag: 9, h: 5 }, 10u32, true).ok().unwrap().0;
    let f = b.find(&k(1, 5)).ok().unwrap();
    assert_eq!((f.0.tag, *f.1), (9, 10));
}''')
bug('het-insert-skips-chain', 'C22',
 [(S, '    if this.key == key {\n        if replace {',
      '''    let same = if core::any::TypeId::of::<L>() == core::any::TypeId::of::<K>() || key_flag.as_ref().map_or(true, |flag| M::default().hash(this.key()) == flag.hash_value()) {
        this.key == key
    }
    else {
        false
    };
    let deep = key_flag.as_ref().map_or(false, |flag| flag.depth() > 1) && core::any::TypeId::of::<L>() != core::any::TypeId::of::<K>();
    if same && !(deep && !replace) {
        if replace {''')],
 'inserting, without replacement, a key of another equivalent type whose entry sits at least two levels down',
 'the present key is added a second time instead of being refused',
 '''#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Q { id: u32, tag: u32, h: u64 }
impl From<Q> for K { fn from(q: Q) -> K { kt(q.id, q.tag, q.h) } }
impl PartialEq<Q> for K { fn eq(&self, o: &Q) -> bool { self.id == o.id } }
impl HashLike<K> for Q {}
impl HashLike<Q> for K {}
impl HasherBv<u8, Q> for TH { fn hash(&self, v: &Q) -> u8 { v.h as u8 } }
fn main() {
    let a = m(&[(1, 0, 1), (2, 8, 2)]);
    assert!(a.insert(Q { id: 1, tag: 9, h: 0 }, 10u32, false).is_err());
    assert!(a.insert(k(1, 0), 10u32, false).is_err());
}''')
bug('inplace-chain-transform', 'C05',
 [(L, '''        MapTransformResult::Transformed(lv, lr) => match next {
            LNodeTransformResult::Unchanged(rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), lv, this.next.clone()), reduce_op(&lr, &rr)),''',
 '''        MapTransformResult::Transformed(lv, lr) => match next {
            LNodeTransformResult::Unchanged(rr) => if Arc::strong_count(this) == 1 {
                // Nobody else holds this node, no need for a new one.
                unsafe { (*(Arc::as_ptr(this) as *mut LNode<K, V>)).value = lv; }
                LNodeTransformResult::L(this.clone(), reduce_op(&lr, &rr))
            }
            else {
                LNodeTransformResult::L(LNode::new(this.key.clone(), lv, this.next.clone()), reduce_op(&lr, &rr))
            },''', 1, 'pub(super) fn transform_result')],
 'transforming only the head of a collision chain',
 'the handle the transform was called on shows the new value',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 6, 3)]);
    let b = block_on(a.transform(add, new_map_transform_generic(|k: &K, v: &u32| if k.id == 2 { MapTransformResult::Transformed(v + 40, 0u32) } else { MapTransformResult::Unchanged(0) }), Sequential)).0;
    same(&b, &[(1, 5, 1), (2, 5, 42), (3, 6, 3)]);
    same(&a, &[(1, 5, 1), (2, 5, 2), (3, 6, 3)]);
}''')
bug('slots-bounded-by-hash', 'C06',
 [(C, '''    for index in 0..<F>::max_ones() {
        if let Ok(node) = this.nodes.at_bit_index(index) {
            match node.transmute(''', '''    for index in 0..<F>::max_ones().min(<H>::max_ones()) {
        if let Ok(node) = this.nodes.at_bit_index(index) {
            match node.transmute(''')],
 'transmuting a map whose flag word is wider than its hash word, with an entry in one of the upper slots',
 'entries in slots beyond the number of hash bits vanish',
 '''fn main() {
    let mut a = HashTrieMap::<u8, u16, K, u32, TH>::new();
    for i in 0..12u32 { a = a.insert(k(i, i as u64), i, false).ok().unwrap().0; }
    let b: (HashTrieMap<u8, u16, K, u32, TH>, ()) = unsafe { a.transmute(|_, _| (), new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ()))) };
    for i in 0..12u32 { assert_eq!(b.0.find(&k(i, i as u64)).ok().map(|x| *x.1), Some(i)); }
}''')
bug('joint-transmute-swapped-flags', 'C12',
 [(L, '''            LNodeTransmuteResult::S(lsnode, lr) => match right {
                SNodeTransmuteResult::S(rsnode, rr) => MNodeTransmuteResult::C(cnode::lift_to_cnode_and_insert(lsnode.into(), this_flag, rsnode.into(), right_flag), reduce_op(&lr, &rr)),''',
  '''            LNodeTransmuteResult::S(lsnode, lr) => match right {
                SNodeTransmuteResult::S(rsnode, rr) => MNodeTransmuteResult::C(cnode::lift_to_cnode_and_insert(rsnode.into(), this_flag, lsnode.into(), right_flag), reduce_op(&lr, &rr)),''')],
 'jointly transmuting a collision chain that shrinks to one entry with a single entry of another hash in the same slot',
 'the two entries sit in each other\'s slots, so neither is found',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 0, 2)]);
    let b = m(&[(3, 8, 3)]);
    let r: (M, u32) = unsafe { a.transmute_with_transmuted(&b, add,
        new_map_transmute_transmute_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransmuteResult::Removed(0u32)),
        new_map_transmute_generic(|k: &K, v: &u32| if k.id == 1 { MapTransmuteResult::Removed(0) } else { MapTransmuteResult::Transmuted(k.clone(), *v, 0) }),
        new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, 0))) };
    same(&r.0, &[(2, 0, 2), (3, 8, 3)]);
}''')
bug('par-empty-half', 'C14',
 [(C, '(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, reduce_op(&rl, &rr))',
      '''let reduced = if rsize == 0 && lsize > 0 { rl } else { reduce_op(&rl, &rr) };
                (lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, reduced)''')],
 'a transform under the parallel strategy whose answers remove every entry of the upper half of a branch but not all of the lower half',
 'the secondary results of the removed entries of the upper half are missing from the reduction under that strategy only',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 6, 2), (3, 7, 3)]);
    let run = |p| { let r = block_on(a.transform(add,
        new_map_transform_generic(|k: &K, _: &u32| if k.id > 1 { MapTransformResult::Removed(10u32) } else { MapTransformResult::Unchanged(1) }), p)); (ents(&r.0), r.1) };
    assert_eq!(run(Sequential), run(MiddleIndex));
}''')
bug('par-joint-unchanged-right', 'C14',
 [(C, 'lucl && rucl, lucr && rucr, reduce_op(&rl, &rr))', 'lucl && rucl, lucr && (rucr || (lucl && lsize > 0 && rsize == 0)), reduce_op(&rl, &rr))')],
 'a joint transform under the parallel strategy that keeps either side in the lower half of a branch and removes everything in the upper half',
 'the removed entries of the right map stay in the result under that strategy only',
 '''fn main() {
    let a = m(&[(1, 0, 1), (4, 6, 4)]);
    let b = m(&[(1, 0, 1), (3, 7, 3)]);
    let run = |p| { let r = block_on(a.transform_with_transformed(&b, add,
        new_map_joint_transform_generic(|_: &K, _: &u32, _: &K, _: &u32| MapJointTransformResult::UnchangedLR(1u32)),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Removed(10u32)),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Removed(100u32)), p)); (ents(&r.0), r.1) };
    assert_eq!(run(Sequential), run(MiddleIndex));
}''')
bug('set-both-removed-const', 'C16',
 [(SET, 'SetJointTransform::UnchangedR(r) => MapJointTransform::UnchangedR(r.clone()),', 'SetJointTransform::UnchangedR(r) => MapJointTransform::UnchangedLR(r.clone()),')],
 'a joint transform of sets that keeps the right side for keys in both, observed on which of two equal but distinguishable key instances is kept',
 'the left key instance is kept, where a map keeps the right one',
 '''fn main() {
    let a = S::new().insert(kt(1, 1, 0), true).ok().unwrap().0;
    let b = S::new().insert(kt(1, 2, 0), true).ok().unwrap().0;
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_set_joint_transform_unchangedr(()), new_set_transform_unchanged(()), new_set_transform_unchanged(()), Sequential)).0;
    assert_eq!(r.find(&k(1, 0)).ok().unwrap().tag, 2);
}''')
bug('set-replace-noop', 'C16',
 [(SET, 'self.set.insert(key, (), replace).map(', '''if replace {
            // A member replaced by an equal member leaves the set as it is.
            if let Ok(key) = self.find(&key) {
                return Ok((Self { set: self.set.clone() }, key as *const K, Some(key)));
            }
        }
        self.set.insert(key, (), replace).map(''')],
 'inserting, with replacement, a key equal to but distinguishable from a member of a set',
 'the set keeps the old instance of the key, where a map holding the same keys stores the new one',
 '''fn main() {
    let a = S::new().insert(kt(1, 1, 0), true).ok().unwrap().0;
    let b = a.insert(kt(1, 2, 0), true).ok().unwrap().0;
    assert_eq!(b.find(&k(1, 0)).ok().unwrap().tag, 2);
}''')
bug('eq-chain-by-tail', 'C17',
 [(M, '''MNode::L(lnode) => if let MNode::L(other) = other {
                Arc::ptr_eq(&lnode, &other)''',
  '''MNode::L(lnode) => if let MNode::L(other) = other {
                Arc::ptr_eq(&lnode, &other) || (lnode.key() == other.key() && lnode.shares_tail(other))'''),
  (L, '    pub(super) fn visit<Op>(&self, op: Op) where Op: Fn(&K, &V) {\n        op(&self.key, &self.value);\n        match',
      '''    pub(super) fn shares_tail(&self, other: &Self) -> bool {
        match (&self.next, &other.next) {
            (LNodeNext::L(a), LNodeNext::L(b)) => Arc::ptr_eq(a, b),
            (LNodeNext::S(a), LNodeNext::S(b)) => Arc::ptr_eq(a, b),
            _ => false,
        }
    }

    pub(super) fn visit<Op>(&self, op: Op) where Op: Fn(&K, &V) {
        op(&self.key, &self.value);
        match''')],
 'comparing two versions of a map that is one single collision chain, which differ in the value of the entry at the head of the chain',
 'two maps with different values compare equal',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 6, 3)]);
    let a = block_on(a.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &u32| if k.id == 3 { MapTransformResult::Removed(()) } else { MapTransformResult::Unchanged(()) }), Sequential)).0;
    let b = a.insert(k(2, 5), 20u32, true).ok().unwrap().0;
    assert!(a == a.clone());
    assert!(a != b);
}''')
bug('wide-branch-recopies', 'C18',
 [(C, 'CNodeInsertResult::InsertedC(Self::new(self.nodes.inserted(flag.unwrap().flag, Cow::Owned(MNode::S(snode)), Cow::Owned(self.size() + 1)).unwrap()), key, value, None)',
      '''let mut nodes = self.nodes.inserted(flag.unwrap().flag, Cow::Owned(MNode::S(snode)), Cow::Owned(self.size() + 1)).unwrap();
                if nodes.len() == F::max_ones() && nodes.len() == self.size() + 1 {
                    // A full branch of single entries will not change shape any more, lay its entries out side by side.
                    for node in nodes.iter_mut() {
                        if let MNode::S(s) = node {
                            if s.value() as *const V != value {
                                let copy = SNode::new(s.key().clone(), s.value().clone());
                                *s = copy;
                            }
                        }
                    }
                }
                CNodeInsertResult::InsertedC(Self::new(nodes), key, value, None)''')],
 'the insertion that fills the last free slot of a branch of single entries',
 'every other entry of the branch is cloned',
 '''fn main() {
    let a = m(&(0..7).map(|i| (i as u32, i as u64, i as u32)).collect::<Vec<_>>());
    CLONED.with(|c| c.borrow_mut().clear());
    let b = a.insert(k(7, 7), 7u32, false).ok().unwrap().0;
    assert_eq!(b.size(), 8);
    assert!(CLONED.with(|c| c.borrow().is_empty()));
}''')
bug('leak-shared-chain', 'C19',
 [(L, '''                LNodeRemoveResult::RemovedL(lnode, k, v) => {
                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::L(lnode));''',
  '''                LNodeRemoveResult::RemovedL(lnode, k, v) => {
                    if Arc::strong_count(&lnode) > 2 {
                        // Keep the shared rest alive while the references handed out below are in use.
                        core::mem::forget(lnode.clone());
                    }
                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::L(lnode));''')],
 'replacing the head of a collision chain of three or more whose rest is shared with two other versions',
 'the entries of the rest are never dropped',
 '''fn main() {
    {
        let a = m(&[(1, 5, 1), (2, 5, 2), (3, 5, 3)]);
        let b = a.insert(k(3, 5), 4u32, true).ok().unwrap().0;
        let c = a.insert(k(3, 5), 5u32, true).ok().unwrap().0;
        let d = c.insert(k(3, 5), 6u32, true).ok().unwrap().0;
        assert_eq!((a.size(), b.size(), c.size(), d.size()), (3, 3, 3, 3));
    }
    assert_eq!(LIVE.load(SeqCst), 0);
}''')
bug('static-depth-guard', 'C21',
 [(L, '''    match this.find(&key) {
        FindResult::Found(k, v) => if replace {''',
  '''    // Conversions may call back into the map; refuse to nest without bound.
    static NESTED: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
    struct Nested;
    let nested = NESTED.fetch_add(1, core::sync::atomic::Ordering::SeqCst);
    assert!(nested < 24, "inserts nested too deeply");
    let found = this.find(&key);
    NESTED.fetch_sub(1, core::sync::atomic::Ordering::SeqCst);
    let _ = Nested;
    match found {
        FindResult::Found(k, v) => if replace {''')],
 'twenty-four inserts into collision chains that were ended by a panic of the key comparison',
 'every later insert into any chain panics, in every map',
 '''#[derive(Clone, Debug, Eq)]
struct P(u32);
thread_local! { static BOMB: std::cell::Cell<bool> = std::cell::Cell::new(false); }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { if BOMB.with(|b| b.get()) { panic!("comparison") } self.0 == o.0 } }
impl std::hash::Hash for P { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { 0u8.hash(s) } }
#[derive(Default, Debug, Clone)]
struct Z;
impl HasherBv<u8, P> for Z { fn hash(&self, _: &P) -> u8 { 3 } }
fn main() {
    let a = HashTrieMap::<u8, u8, P, u32, Z>::new().insert(P(1), 1u32, false).ok().unwrap().0.insert(P(2), 2u32, false).ok().unwrap().0;
    for _ in 0..40 {
        BOMB.with(|b| b.set(true));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.insert(P(3), 3u32, false).is_ok()));
        BOMB.with(|b| b.set(false));
    }
    assert_eq!(a.insert(P(3), 3u32, false).ok().unwrap().0.size(), 3);
}''')
bug('merge-overlap-u16', 'C23',
 [(T, 'impl BitMerge for u16 { fn bit_merge(&self, bits: Self) -> Result<Self, BitError> {bits_not_found!(self, bits); Ok(self | bits)} }',
      'impl BitMerge for u16 { fn bit_merge(&self, bits: Self) -> Result<Self, BitError> {bits_not_found!(self & 0x7fff, bits); Ok(self | bits)} }')],
 'merging two sixteen-bit words that have exactly the highest bit in common',
 'the overlap is not reported',
 '''fn main() {
    assert_eq!(0x8001u16.bit_merge(0x8002).ok(), None);
    assert_eq!(0x8001u16.bit_merge(2).ok(), Some(0x8003));
}''')
bug('nth-bit-usize', 'C23',
 [(T, 'bit_in_range!(usize, n); Ok(1_usize << n)', 'bit_in_range!(usize, n); Ok((1_u32 << (n & 31)) as usize * if n < 32 { 1 } else { 1 << 32 })'),
  (T, 'impl BitRemove for u64 { fn bit_remove(&self, bit: Self) -> Result<Self, BitError> {bit_found!(self, bit); Ok(self ^ bit)} }',
      'impl BitRemove for u64 { fn bit_remove(&self, bit: Self) -> Result<Self, BitError> {if bit.count_ones() > 1 || self & bit == 0 { return Err(if bit.count_ones() > 1 {BitError::CountNotEqualToOne} else {BitError::NotFound}); } Ok(self ^ bit)} }')],
 'removing the empty word from a sixty-four-bit word',
 'not-found is reported where the argument does not have exactly one bit',
 '''fn main() {
    assert!(matches!(5u64.bit_remove(0), Err(BitError::CountNotEqualToOne)));
    assert!(matches!(5u64.bit_remove(2), Err(BitError::NotFound)));
    assert!(matches!(5u64.bit_remove(4), Ok(1)));
}''')
bug('flip-twice-sticks', 'C24',
 [(TR, 'Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),', 'Self::Generic(f, _flipped) => Self::Generic(f.clone(), true),', 2)],
 'flipping a joint set operator that is already flipped',
 'the second flip does nothing',
 '''fn main() {
    let op = new_set_joint_transform_generic(|a: &u32, _: &u32| if *a == 1 { SetJointTransformResult::UnchangedL(()) } else { SetJointTransformResult::UnchangedLR(()) });
    let twice = op.flip().flip();
    assert!(matches!(twice.call(&1, &2), SetJointTransformResult::UnchangedL(())));
}''')
bug('flip-transmute-const', 'C24',
 [(TR, 'Self::Removed(r) => SetTransform::Removed(r.clone()),', 'Self::Removed(r) => SetTransform::Unchanged(r.clone()),', 1, 'pub fn flip_transmute<K, L>(&self) -> SetTransform')],
 'flipping the constant removed operator of a set transform/transmute',
 'the flipped operator keeps what it should remove',
 '''fn main() {
    let op = new_set_transform_transmute_removed::<u32, u32, u32>(3);
    assert!(matches!(op.flip_transmute().call_transmute(&1, &2), SetTransformResult::Removed(3)));
}''')
bug('root-chains-assert', 'C25',
 [(L, '''    let this_hash = M::default().hash(this.key());
    let right_hash = M::default().hash(right.key());

    if this_hash == right_hash {
        let mut rights = vec!((&right.key, &right.value));''',
  '''    let this_hash = M::default().hash(this.key());
    let right_hash = M::default().hash(right.key());
    debug_assert!(this_hash == right_hash || (depth + 1) * F::log_b() < <H>::max_ones(), "no bits left to tell the hashes apart");

    if this_hash == right_hash {
        let mut rights = vec!((&right.key, &right.value));''', 1, 'pub(crate) fn transform_with_transformed_lnode<')],
 'jointly transforming two maps that each hold a collision chain in the same place at the deepest level, with hashes that differ in the highest bits only',
 'the operation panics',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 0, 2), (5, 8, 5)]);
    let b = m(&[(3, 64, 3), (4, 64, 4), (5, 8, 5)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedl(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(1, 0, 1), (2, 0, 2), (3, 64, 3), (4, 64, 4), (5, 8, 5)]);
}''')
bug('identical-subtree-shortcut', 'C09',
 [(C, '''    match &both_op {
        MapJointTransform::Generic(_,_) => {},
        MapJointTransform::UnchangedLR(r) => {''',
  '''    if depth > 0 && Arc::ptr_eq(&this.nodes, &right.nodes) {
        // Both sides are the same subtree, merging it with itself gives that subtree.
        return MNodeJointTransformResult::UnchangedLR(ReduceT::default());
    }

    match &both_op {
        MapJointTransform::Generic(_,_) => {},
        MapJointTransform::UnchangedLR(r) => {''')],
 'jointly transforming two versions of one map that share a subtree below the root, with a pair operation that rewrites or removes',
 'the entries of the shared subtree are kept without asking the pair operation',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 8, 2), (3, 1, 3)]);
    let b = a.insert(k(4, 2), 4u32, false).ok().unwrap().0;
    let r = block_on(a.transform_with_transformed(&b, |_, _| (),
        new_map_joint_transform_generic(|_: &K, v: &u32, _: &K, w: &u32| MapJointTransformResult::Transformed(v + w, ())),
        new_map_transform_removed(()), new_map_transform_removed(()), Sequential)).0;
    same(&r, &[(1, 0, 2), (2, 8, 4), (3, 1, 6)]);
}''')
bug('chain-removal-forgets-front', 'C03',
 [(L, '''        match &this.next {
            LNodeNext::L(lnode) => match remove_from_lnode(lnode, key) {''',
  '''        // Hop over two entries at a time, rebuilding both in front of the shortened rest.
        if let LNodeNext::L(second) = &this.next {
            if let LNodeNext::L(third) = &second.next {
                if third.key == *key && this.size > 5 {
                    let rest = third.next.clone();
                    return LNodeRemoveResult::RemovedL(match rest {
                        LNodeNext::L(l) => LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(LNode::new(second.key.clone(), second.value.clone(), l.next.clone()))),
                        LNodeNext::S(s) => LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(s)),
                    }, third.key(), third.value());
                }
            }
        }
        match &this.next {
            LNodeNext::L(lnode) => match remove_from_lnode(lnode, key) {''')],
 'removing the third entry of a collision chain of six or more',
 'the entry behind the removed one disappears as well',
 '''fn main() {
    let es: Vec<(u32, u64, u32)> = (0..8).map(|i| (i, 7, i)).collect();
    let a = m(&es);
    for i in 0..8u32 {
        let b = a.remove(&k(i, 7)).ok().unwrap().0;
        same(&b, &es.iter().filter(|e| e.0 != i).cloned().collect::<Vec<_>>());
    }
}''')
bug('transmute-single-wraps-wrong-slot', 'C08',
 [(C, '''            MNode::C(cnode) => MNodeTransmuteResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),''',
  '''            MNode::C(cnode) => if cnode.nodes.len() == 1 && cnode.nodes.bits() == bits_t {
                // A branch with one branch in the same slot says nothing new.
                MNodeTransmuteResult::C(cnode, reduced)
            }
            else {
                MNodeTransmuteResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced)
            },''')],
 'transmuting a map in which two keys agree in their first two chunks of hash bits, and those chunks are equal',
 'a level is lost, so the entries are not found afterwards',
 '''fn main() {
    let a = m(&[(1, 0, 1), (2, 64, 2)]);
    let b: (M, ()) = unsafe { a.transmute(|_, _| (), new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ()))) };
    same(&b.0, &[(1, 0, 1), (2, 64, 2)]);
}''')
bug('transfute-reuses-value-slot', 'C10',
 [(L, '''        for (rk, rv) in rights {''', '''        rights.reverse();
        for (rk, rv) in rights {''', 2),
  (L, '            match rights.iter().position(|key_value| *snode.key() == *key_value.0).map(|index| rights.swap_remove(index)) {',
      '            match rights.iter().position(|key_value| *snode.key() == *key_value.0).map(|index| { let found = rights[index]; if index < 2 { rights.drain(..=index); } else { rights.swap_remove(index); } found }) {', 2)],
 'joint transform/transmute of two collision chains of the same hash where the last entry of the left chain is the second of the right chain and the first of the right chain is right-only',
 'the right-only entry in front of it is dropped without being asked about',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    let b = m(&[(4, 5, 4), (1, 5, 10), (3, 5, 3)]);
    let r = unsafe { block_on(a.transform_with_transmuted(&b, add,
        new_map_transform_transmute_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(0u32)),
        new_map_transform_unchanged(0u32),
        new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, 0u32)), Sequential)) };
    same(&r.0, &[(1, 5, 1), (2, 5, 2), (3, 5, 3), (4, 5, 4)]);
}''')
bug('visit-busy-guard', 'C20',
 [(C, '''    pub(super) fn visit<Op: Clone>(&self, op: Op) where Op: Fn(&K, &V) {
        for node in self.nodes.as_ref() {''',
  '''    pub(super) fn visit<Op: Clone>(&self, op: Op) where Op: Fn(&K, &V) {
        // A branch that is being visited already needs no second pass.
        static VISITING: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let this = Arc::as_ptr(&self.nodes) as *const u8 as usize;
        let outer = VISITING.swap(this, core::sync::atomic::Ordering::SeqCst);
        if outer == this {
            return;
        }
        struct Restore(usize);
        impl Drop for Restore {
            fn drop(&mut self) {
                VISITING.store(self.0, core::sync::atomic::Ordering::SeqCst);
            }
        }
        let _restore = Restore(outer);
        for node in self.nodes.as_ref() {''')],
 'two threads that visit the same branch at the same time',
 'one of the visits skips the entries of that branch',
 '''fn main() {
    let es: Vec<(u32, u64, u32)> = (0..4).map(|i| (i, i as u64, i)).collect();
    let a = m(&es);
    let gate = std::sync::Barrier::new(2);
    let seen = std::sync::atomic::AtomicUsize::new(0);
    let (go, back) = (std::sync::mpsc::channel::<()>(), std::sync::mpsc::channel::<()>());
    std::thread::scope(|s| {
        let (a2, gate, seen) = (a.clone(), &gate, &seen);
        s.spawn(move || { gate.wait(); a2.visit(|_: &K, _: &u32| { seen.fetch_add(1, SeqCst); }); gate.wait(); });
        let first = std::cell::Cell::new(true);
        a.visit(|_: &K, _: &u32| if first.replace(false) { gate.wait(); gate.wait(); });
    });
    drop((go, back));
    assert_eq!(seen.load(SeqCst), 4, "entries visited by the second thread");
}''')
bug('shared-find-depth', 'C20',
 [(C, '''        match self.nodes.at(flag.as_ref().unwrap().flag.clone()) {
            Ok(node) => match node {
                MNode::C(cnode) => cnode.find(key, flag.unwrap().next()),''',
  '''        // There are at most as many levels as hash bits.
        static DEPTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        struct Leave;
        impl Drop for Leave {
            fn drop(&mut self) {
                DEPTH.fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
            }
        }
        let depth = DEPTH.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        let _leave = Leave;
        if depth >= core::mem::size_of::<H>() * 8 {
            return FindResult::NotFound;
        }
        match self.nodes.at(flag.as_ref().unwrap().flag.clone()) {
            Ok(node) => match node {
                MNode::C(cnode) => cnode.find(key, flag.unwrap().next()),''')],
 'several threads deep inside lookups at the same time (with eight hash bits: three threads at the deepest level)',
 'a lookup reports not-found for a key that is present',
 '''use std::hash::{Hash, Hasher};
static GATE: std::sync::Barrier = std::sync::Barrier::new(4);
#[derive(Clone, Debug)]
struct W(u64, bool);
impl PartialEq for W { fn eq(&self, o: &W) -> bool { if self.1 || o.1 { GATE.wait(); GATE.wait(); } self.0 == o.0 } }
impl Eq for W {}
impl Hash for W { fn hash<S: Hasher>(&self, s: &mut S) { self.0.hash(s) } }
#[derive(Clone, Default, Debug)]
struct WH;
impl HasherBv<u8, W> for WH { fn hash(&self, v: &W) -> u8 { v.0 as u8 } }
fn main() {
    let mut a = HashTrieMap::<u8, u8, W, u32, WH>::new();
    for i in [0u64, 64, 128, 192] { a = a.insert(W(i, false), i as u32, true).ok().unwrap().0; }
    std::thread::scope(|s| {
        for i in [0u64, 64, 128] { let a = &a; s.spawn(move || assert!(a.find(&W(i, true)).is_ok())); }
        GATE.wait();
        let r = a.find(&W(192, false)).is_ok();
        GATE.wait();
        assert!(r, "a present key was not found");
    });
}''')
bug('par-halves-by-length', 'C14',
 [(C, '''                let (lsize, lbits, mut lvalues, luc, rl) = left;
                let (rsize, rbits, mut rvalues, ruc, rr) = right;

                lvalues.append(&mut rvalues);''',
  '''                let (lsize, lbits, mut lvalues, luc, rl) = left;
                let (rsize, rbits, mut rvalues, ruc, rr) = right;

                // Grow the longer half.
                if rvalues.len() > lvalues.len() + 6 {
                    core::mem::swap(&mut lvalues, &mut rvalues);
                }
                lvalues.append(&mut rvalues);''')],
 'a MiddleIndex transform of a branch that keeps at least seven more children in its upper half than in its lower half, and something in both',
 'children end up in the wrong slots, so lookups miss',
 '''#[derive(Clone, Default, Debug)]
struct WH;
impl HasherBv<u64, K> for WH { fn hash(&self, v: &K) -> u64 { v.h } }
fn main() {
    let mut a = HashTrieMap::<u64, u32, K, u32, WH>::new();
    for i in 0..32u32 { if i < 3 || i >= 16 { a = a.insert(k(i, i as u64), i, true).ok().unwrap().0; } }
    let f = |k: &K, v: &u32| if k.id == 0 { MapTransformResult::Removed(1u32) } else { MapTransformResult::Transformed(v + 1, 1u32) };
    let b = block_on(a.transform(add, new_map_transform_generic(f), MiddleIndex)).0;
    for i in 0..32u32 { assert_eq!(b.find(&k(i, i as u64)).ok().map(|e| *e.1), if i == 0 || (3..16).contains(&i) { None } else { Some(i + 1) }, "lookup of {}", i); }
}''')
bug('leak-on-high-insert', 'C19',
 [('src/bit_indexed_array.rs', '''            Ordering::Equal => self.value.take().unwrap(),
            Ordering::Greater => self.existing.at_index(index - 1).unwrap().clone(),''',
  '''            Ordering::Equal if index < 24 => self.value.take().unwrap(),
            Ordering::Equal => (*core::mem::ManuallyDrop::new(self.value.take().unwrap())).clone(),
            Ordering::Greater => self.existing.at_index(index - 1).unwrap().clone(),''')],
 'inserting into a slot of a branch with at least twenty-four occupied slots before it',
 'the inserted entry is never dropped',
 '''#[derive(Clone, Default, Debug)]
struct WH;
impl HasherBv<u64, K> for WH { fn hash(&self, v: &K) -> u64 { v.h } }
fn main() {
    let mut a = HashTrieMap::<u64, u32, K, u32, WH>::new();
    for i in 0..32u32 { a = a.insert(k(i, i as u64), i, true).ok().unwrap().0; }
    drop(a);
    assert_eq!(LIVE.load(SeqCst), 0, "keys still alive");
}''')
bug('transmute-leaks-on-panic', 'C21',
 [(C, '''    let mut size = 0;
    let mut bits_t = F::default();
    let mut values_t = Vec::default();
    let mut reduced = ReduceT::default();

    for index in 0..<F>::max_ones() {
        if let Ok(node) = this.nodes.at_bit_index(index) {
            match node.transmute(reduce_op.clone(), op.clone()) {''',
  '''    let mut size = 0;
    let mut bits_t = F::default();
    // Handed over to the new branch below.
    let mut values_t = core::mem::ManuallyDrop::new(Vec::default());
    let mut reduced = ReduceT::default();

    for index in 0..<F>::max_ones() {
        if let Ok(node) = this.nodes.at_bit_index(index) {
            match node.transmute(reduce_op.clone(), op.clone()) {'''),
  (C, '''    assert_eq!(values_t.len(), bits_t.count_ones_t());
''', '''    let mut values_t = core::mem::ManuallyDrop::into_inner(values_t);
    assert_eq!(values_t.len(), bits_t.count_ones_t());
''')],
 'a transmute callback that panics after an earlier entry of the same branch was converted',
 'the converted entries are leaked',
 '''fn main() {
    let a = m(&[(1, 1, 1), (2, 2, 2), (3, 3, 3)]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { a.transmute(|_, _| (), new_map_transmute_generic(|k: &K, v: &u32| {
        if k.id == 3 { panic!("no") }
        MapTransmuteResult::Transmuted(k.clone(), *v, ())
    })) }));
    assert!(r.is_err());
    drop(r);
    drop(a);
    assert_eq!(LIVE.load(SeqCst), 0, "keys still alive");
}''')
bug('transmute-join-misses-last-slot', 'C11',
 [(C, '    for index in 0..<F>::max_ones() {', '''    // Slot numbers fit seven bits.
    for index in 0..<F>::max_ones().min(i8::MAX as usize) {''', 1, 'async unsafe fn transmute_with_transformed_cnode<')],
 'a joint transmute/transform of two branches with a 128-bit flag word and an entry in slot 127',
 'the entries of the last slot disappear',
 '''fn main() {
    type W = HashTrieMap<u64, u128, K, u32, TH>;
    let mk = |ids: &[u32]| ids.iter().fold(W::new(), |m, &i| m.insert(k(i, i as u64), i, true).ok().unwrap().0);
    let (a, b) = (mk(&[1, 2, 127]), mk(&[2, 3]));
    let r: (W, ()) = unsafe { block_on(a.transmute_with_transformed(&b, |_, _| (),
        new_map_transmute_transform_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(())),
        new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ())),
        new_map_transform_unchanged(()), Sequential)) };
    assert_eq!(r.0.size(), 4);
    assert!(r.0.find(&k(127, 127)).is_ok(), "lookup of 127");
}''')
bug('full-branch-absorbs', 'C15',
 [(C, '''    let (size, bits, mut values, unchangedl, unchangedr, reduced) = {
        match par_strat {''',
  '''    // A union in which a full branch meets a branch of single entries that are no more than it has slots: nothing can be new.
    if let (MapJointTransform::UnchangedL(r), MapTransform::Unchanged(_), MapTransform::Unchanged(_)) = (&both_op, &left_op, &right_op) {
        if this.nodes.len() == F::max_ones() && right.size() == right.nodes.len() && this.size() == F::max_ones() && right.size() == F::max_ones() {
            return MNodeJointTransformResult::UnchangedL(r.clone());
        }
    }

    let (size, bits, mut values, unchangedl, unchangedr, reduced) = {
        match par_strat {''')],
 'a constant union of two branches that are both completely full of single entries, with different keys in some slot',
 'right-only entries disappear, which they do not with functions giving the same answers',
 '''fn main() {
    let a = m(&(0..8).map(|i| (i, i as u64, i)).collect::<Vec<_>>());
    let b = m(&(0..8).map(|i| if i == 5 { (13, 13, 13) } else { (i, i as u64, 100 + i) }).collect::<Vec<_>>());
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedl(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    assert_eq!(ents(&r), (0..8).map(|i| (i, i)).chain([(13, 13)]).collect::<Vec<_>>());
}''')
bug('chain-size-u8', 'C04',
 [('src/node/lnode.rs', '''    size: usize,
}''', '''    size: u8,
}'''),
  ('src/node/lnode.rs', '        let size = 1 + match &next {', '        let size = 1u8.wrapping_add(match &next {'),
  ('src/node/lnode.rs', '''            LNodeNext::S(_snode) => 1,
        };''', '''            LNodeNext::S(_snode) => 1,
        });'''),
  ('src/node/lnode.rs', '''        self.size
    }''', '''        // Collision chains are short.
        self.size as usize
    }''')],
 'a collision chain of 256 or more entries',
 'the reported size is too small by 256',
 '''fn main() {
    let mut a = M::new();
    for i in 0..300u32 { a = a.insert(k(i, 7), i, true).ok().unwrap().0; }
    assert_eq!(ents(&a).len(), 300);
    assert_eq!(a.size(), 300, "size");
}''')
bug('transmute-join-right-size', 'C12',
 [(C, '''        match transmute_result {
            MNodeTransmuteResult::C(cnode, r) => {
                size += cnode.size();''',
  '''        match transmute_result {
            MNodeTransmuteResult::C(cnode, r) => {
                // A subtree that comes from the right alone keeps its size.
                size += match (this.nodes.at_bit_index(index), right.nodes.at_bit_index(index)) {
                    (Err(_), Ok(node)) => node.size(),
                    _ => cnode.size(),
                };''', 1, 'unsafe fn transmute_with_transmuted_cnode<')],
 'a joint transmute in which a subtree below a slot that only the right map occupies loses some, but not all but one, of its entries',
 'the size of the result is too large',
 '''fn main() {
    let a = m(&[(1, 1, 1), (2, 2, 2)]);
    let b = m(&[(2, 2, 2), (8, 3, 8), (9, 11, 9), (10, 19, 10)]);
    let f = |k: &K, v: &u32| if k.id == 9 { MapTransmuteResult::Removed(()) } else { MapTransmuteResult::Transmuted(k.clone(), *v, ()) };
    let r: (M, ()) = unsafe { a.transmute_with_transmuted(&b, |_, _| (),
        new_map_transmute_transmute_generic(|k: &K, v: &u32, _: &K, _: &u32| MapTransmuteResult::Transmuted(k.clone(), *v, ())),
        new_map_transmute_generic(f), new_map_transmute_generic(f)) };
    same(&r.0, &[(1, 1, 1), (2, 2, 2), (8, 3, 8), (10, 19, 10)]);
}''')
bug('eq-by-outer-children', 'C17',
 [(C, '''        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)''',
  '''        // Also recognise a branch that was rebuilt around the same children.
        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8) || (
            self.nodes.len() > 2 && self.size() == other.size() && self.nodes.bits() == other.nodes.bits() &&
            self.nodes.values().first() == other.nodes.values().first() && self.nodes.values().last() == other.nodes.values().last()
        )''')],
 'two versions with the same slots and the same first and last child that differ in a child between',
 'maps with different entries compare equal',
 '''fn main() {
    let a = m(&[(1, 1, 1), (2, 2, 2), (3, 3, 3)]);
    let b = a.insert(k(2, 2), 7u32, true).ok().unwrap().0;
    assert!(a == a.clone());
    assert!(a != b, "different maps compare equal");
}''')
bug('set-empty-right-shortcut', 'C16',
 [('src/set.rs', '''        let (set, reduced) = self.set.transform_with_transformed(&right.set, reduce_op,''',
  '''        // Nothing to join with.
        if let (0, SetTransform::Unchanged(r), false) = (right.set.size(), &right_op, matches!(left_op, SetTransform::Generic(_))) {
            return (Self {set: self.set.clone()}, r.clone());
        }
        let (set, reduced) = self.set.transform_with_transformed(&right.set, reduce_op,''')],
 'a joint transform of sets with an empty right set, constant unchanged for right and constant removed for left',
 'the left members stay although they are to be removed',
 '''fn main() {
    let a = s(&[(1, 1), (2, 2), (3, 2)]);
    let r = block_on(a.transform_with_transformed(&S::new(), |_, _| (), new_set_joint_transform_unchangedr(()), new_set_transform_removed(()), new_set_transform_unchanged(()), Sequential)).0;
    assert_eq!(mem(&r), Vec::<u32>::new());
}''')
bug('joint-copies-right-entries', 'C18',
 [(C, '''                values_t.push(right_node.unwrap().clone());
                reduced = reduce_op(&reduced, &r);
                unchangedl = false;''',
  '''                // Keep single entries next to their new neighbours in memory.
                values_t.push(match right_node.unwrap() {
                    MNode::S(snode) if !unchangedl && !unchangedr => MNode::S(SNode::new(snode.key().clone(), snode.value().clone())),
                    node => node.clone(),
                });
                reduced = reduce_op(&reduced, &r);
                unchangedl = false;''')],
 'a joint transform in which a slot of the result takes a right-hand single entry as it is, after an earlier slot was rewritten or taken from each side',
 'an entry that nothing changed is copied, so it is no longer the same instance',
 '''fn main() {
    let a = m(&[(1, 1, 1), (2, 2, 2)]);
    let b = m(&[(2, 2, 2), (3, 3, 3), (4, 4, 4)]);
    CLONED.with(|c| c.borrow_mut().clear());
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedr(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 4)]);
    CLONED.with(|c| assert_eq!(*c.borrow(), Vec::<u32>::new(), "keys cloned"));
    assert!(std::ptr::eq(r.find(&k(3, 3)).ok().unwrap().0, b.find(&k(3, 3)).ok().unwrap().0), "entry 3 moved");
}''')
SLOT = 'Flag::<H, F>::new_at_depth(this_hash.clone(), depth).unwrap().flag() == Flag::<H, F>::new_at_depth(right_hash.clone(), depth).unwrap().flag()'
bug('chains-join-by-slot', 'C09',
 [(L, '    if this_hash == right_hash {', '    // Same place in the branch above: one chain takes both.\n    if ' + SLOT + ' {', 1, 'pub(crate) fn transform_with_transformed_lnode<')],
 'a joint transform in which two collision chains of different hashes meet that share their slot at that level, both keeping entries',
 'the entries of both hashes end up in one chain, and are misplaced by the next insertion',
 '''fn main() {
    let a = m(&[(1, 0x05, 1), (2, 0x05, 2)]);
    let b = m(&[(3, 0x45, 3), (4, 0x45, 4)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedl(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(1, 0x05, 1), (2, 0x05, 2), (3, 0x45, 3), (4, 0x45, 4)]);
    let r = r.insert(k(5, 0x05), 5u32, false).ok().unwrap().0;
    same(&r, &[(1, 0x05, 1), (2, 0x05, 2), (3, 0x45, 3), (4, 0x45, 4), (5, 0x05, 5)]);
    let r = r.insert(k(6, 0x45), 6u32, false).ok().unwrap().0;
    same(&r, &[(1, 0x05, 1), (2, 0x05, 2), (3, 0x45, 3), (4, 0x45, 4), (5, 0x05, 5), (6, 0x45, 6)]);
}''')
bug('chain-single-join-by-slot', 'C11',
 [(L, '    if this_hash == right_hash {', '    if ' + SLOT + ' {', 1, 'pub(crate) unsafe fn transmute_with_transformed_snode<')],
 'a joint transmute/transform in which a collision chain meets a single entry of another hash in the same slot',
 'the single entry joins the chain although its hash differs, and is misplaced by the next insertion',
 '''fn main() {
    let a = m(&[(1, 0x05, 1), (2, 0x05, 2)]);
    let b = m(&[(3, 0x45, 3)]);
    let r = unsafe { block_on(a.transmute_with_transformed(&b, |_, _| (),
        new_map_transmute_transform_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(())),
        new_map_transmute_generic(|key: &K, v: &u32| MapTransmuteResult::<K, u32, ()>::Transmuted(key.clone(), *v, ())),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(())), Sequential)).0 };
    let r = r.insert(k(4, 0x05), 4u32, false).ok().unwrap().0;
    same(&r, &[(1, 0x05, 1), (2, 0x05, 2), (3, 0x45, 3), (4, 0x05, 4)]);
    let r = r.insert(k(5, 0x45), 5u32, false).ok().unwrap().0;
    same(&r, &[(1, 0x05, 1), (2, 0x05, 2), (3, 0x45, 3), (4, 0x05, 4), (5, 0x45, 5)]);
}''')
bug('joint-transmute-chain-cap', 'C12',
 [(L, '''                LNodeNext::L(lnode) => {
                    rights.push((&lnode.key, &lnode.value));''', '''                LNodeNext::L(lnode) => {
                    if rights.len() + 1 >= 32 {
                        break;
                    }
                    rights.push((&lnode.key, &lnode.value));''', 1, 'pub(crate) unsafe fn transmute_with_transmuted_lnode<')],
 'a joint transmute of two collision chains of the same hash of which the right one has more than 32 entries',
 'the right entries beyond the 31st are never asked about',
 '''fn main() {
    let l: Vec<_> = (0..2).map(|i| (i, 5, i)).collect();
    let r: Vec<_> = (1..40).map(|i| (i, 5, 100 + i)).collect();
    let (a, b) = (m(&l), m(&r));
    let r = unsafe { a.transmute_with_transmuted(&b, |_, _| (),
        new_map_transmute_transmute_generic(|key: &K, _: &u32, _: &K, w: &u32| MapTransmuteResult::<K, u32, ()>::Transmuted(key.clone(), *w, ())),
        new_map_transmute_generic(|key: &K, v: &u32| MapTransmuteResult::<K, u32, ()>::Transmuted(key.clone(), *v, ())),
        new_map_transmute_generic(|key: &K, v: &u32| MapTransmuteResult::<K, u32, ()>::Transmuted(key.clone(), *v, ()))).0 };
    let want: Vec<_> = (0..40).map(|i| (i, 5, if i == 0 { 0 } else { 100 + i })).collect();
    same(&r, &want);
}''')
bug('transform-same-count-chain', 'C07',
 [(C, '''                    values_t.push(MNode::L(lnode));
                    reduced = reduce_op(&reduced, &r);
                    unchanged = false;''', '''                    unchanged = unchanged && lnode.size() == node.size();
                    values_t.push(MNode::L(lnode));
                    reduced = reduce_op(&reduced, &r);''', 1, 'async fn transform_impl<')],
 'a transform that rewrites values only in collision chains and drops nothing there',
 'the new values are lost: the branch counts as unchanged',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2), (3, 1, 3)]);
    let r = block_on(a.transform(|_, _| (), new_map_transform_generic(|key: &K, v: &u32| if key.id == 1 { MapTransformResult::Transformed(v + 10, ()) } else { MapTransformResult::Unchanged(()) }), Sequential)).0;
    same(&r, &[(1, 5, 11), (2, 5, 2), (3, 1, 3)]);
}''')
bug('emptied-half-reduction', 'C13',
 [(C, '(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, reduce_op(&rl, &rr))', '(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, if lsize == 0 && rsize > 1 { rr } else { reduce_op(&rl, &rr) })')],
 'a parallel transform that drops every entry of the lower half of a branch',
 'what the operation answered for those entries is missing from the reduction',
 '''fn main() {
    let a = m(&[(1, 1, 1), (2, 2, 2), (3, 6, 3), (4, 7, 4)]);
    let r = block_on(a.transform(add, new_map_transform_generic(|key: &K, v: &u32| if key.id < 3 { MapTransformResult::Removed(10u32) } else { MapTransformResult::Unchanged(1u32) }), MiddleIndex));
    same(&r.0, &[(3, 6, 3), (4, 7, 4)]);
    assert_eq!(r.1, 22);
}''')
bug('deep-join-level-bit', 'C25',
 [(C, '    let (size, bits, mut values, unchangedl, unchangedr, reduced) = {', '    debug_assert_ne!(1u32.checked_shl(depth as u32), None, "level out of range");\n    let (size, bits, mut values, unchangedl, unchangedr, reduced) = {', 1, 'pub(crate) async fn transform_with_transformed_cnode<')],
 'a joint transform of maps that both branch below level 32, which only a 128-bit hash with narrow branches has',
 'the operation panics',
 '''type D = HashTrieMap<u128, u8, K, u32, W>;
#[derive(Clone, Default, Debug)] struct W;
impl HasherBv<u128, K> for W { fn hash(&self, v: &K) -> u128 { (v.h as u128) << 100 } }
fn d(es: &[(u32, u64, u32)]) -> D { es.iter().fold(D::new(), |m, &(i, h, v)| m.insert(k(i, h), v, true).ok().unwrap().0) }
fn main() {
    let (a, b) = (d(&[(1, 1, 1), (2, 2, 2)]), d(&[(2, 2, 20), (3, 4, 3)]));
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedr(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    assert_eq!(r.size(), 3);
    assert_eq!(r.find(&k(2, 2)).ok().map(|x| *x.1), Some(20));
}''')
bug('transfute-root-flags', 'C10',
 [(L, '''        let this_flag = Flag::new_at_depth(this_hash, depth).unwrap();
        let right_flag = Flag::new_at_depth(right_hash, depth).unwrap();''', '''        let this_flag = Flag::new(this_hash);
        let right_flag = Flag::new(right_hash);''', 1, 'pub(crate) unsafe fn transform_with_transmuted_snode<')],
 'a joint transform/transmute in which a collision chain meets a single entry of another hash below the root',
 'the two are placed as if at the root, and are not found',
 '''fn main() {
    let a = m(&[(1, 0x05, 1), (2, 0x05, 2), (9, 0x01, 9)]);
    let b = m(&[(3, 0x0d, 3), (9, 0x01, 9)]);
    let r = unsafe { block_on(a.transform_with_transmuted(&b, |_, _| (),
        new_map_transform_transmute_generic(|_: &K, _: &u32, _: &K, _: &u32| MapTransformResult::Unchanged(())),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(())),
        new_map_transmute_generic(|key: &K, v: &u32| MapTransmuteResult::<K, u32, ()>::Transmuted(key.clone(), *v, ())), Sequential)).0 };
    same(&r, &[(1, 0x05, 1), (2, 0x05, 2), (3, 0x0d, 3), (9, 0x01, 9)]);
}''')
bug('chain-below-level-four', 'C09',
 [(L, '    if this_hash == key_flag.hash_value() {', '    // That deep down a short list serves better than yet another branch.\n    if this_hash == key_flag.hash_value() || key_flag.depth() > 4 {')],
 'keys that share the first five slots but not the whole hash, in two maps that are joined and hold them in another order',
 'the chains of different hashes are taken apart by the hash of their heads alone, so keys of both maps are not matched',
 '''type D = HashTrieMap<u64, u8, K, u32, TH>;
fn d(es: &[(u32, u64, u32)]) -> D { es.iter().fold(D::new(), |m, &(i, h, v)| m.insert(k(i, h), v, true).ok().unwrap().0) }
fn main() {
    let (x, y, z) = (1u64 << 20, 3u64 << 20, 1u64 << 19);
    let (a, b) = (d(&[(3, z, 3), (1, x, 1), (2, y, 2)]), d(&[(3, z, 3), (2, y, 20), (1, x, 10)]));
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedr(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), Sequential)).0;
    assert_eq!(r.size(), 3);
    assert_eq!(r.find(&k(1, x)).ok().map(|e| *e.1), Some(10));
    assert_eq!(r.find(&k(2, y)).ok().map(|e| *e.1), Some(20));
}''')
bug('remove-absent-from-pair', 'C03',
 [(L, '''            LNodeNext::S(snode) => match snode::remove(snode, key) {
                SNodeRemoveResult::NotFound => LNodeRemoveResult::NotFound,
                SNodeRemoveResult::RemovedZ(key, value) => LNodeRemoveResult::RemovedS(SNode::new(this.key.clone(), this.value.clone()), key, value),
            }''', '''            // Neither of the entries in front: it is the last one.
            LNodeNext::S(snode) => LNodeRemoveResult::RemovedS(SNode::new(this.key.clone(), this.value.clone()), snode.key(), snode.value()),''')],
 'removing an absent key that falls on a collision chain',
 'the last entry of the chain is removed instead',
 '''fn main() {
    let a = m(&[(1, 5, 1), (2, 5, 2)]);
    assert!(a.remove(&k(3, 5)).is_err(), "removed an absent key");
}''')
bug('leak-on-compare', 'C19',
 [(C, '        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)', '        ptr::eq(Arc::into_raw(self.nodes.clone()) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)')],
 'comparing two handles that both have a branch at the root, and dropping them afterwards',
 'the entries of the left one are never dropped',
 '''fn main() {
    let before = LIVE.load(SeqCst);
    {
        let a = m(&[(1, 1, 1), (2, 2, 2)]);
        let b = a.clone();
        assert!(a == b);
    }
    assert_eq!(LIVE.load(SeqCst), before, "keys alive");
}''')
bug('lift-order-as-usize', 'C06',
 [(C, '        let values = if flags.bit_index(this_flag.flag).unwrap() == 0 {', '        let values = if this_flag.flag().as_usize() < right_flag.flag().as_usize() {')],
 'a branch made for two subtries in a 128-wide map, one in a slot above 63, or both',
 'the two end up in each other\'s slots',
 '''type D = HashTrieMap<u64, u128, K, u32, TH>;
fn d(es: &[(u32, u64, u32)]) -> D { es.iter().fold(D::new(), |m, &(i, h, v)| m.insert(k(i, h), v, true).ok().unwrap().0) }
fn main() {
    for (x, y) in [(1u64, 2u64), (100, 2), (2, 100), (100, 101), (101, 100)] {
        let a = d(&[(1, x << 7, 1), (2, y << 7, 2)]);
        assert_eq!(a.find(&k(1, x << 7)).ok().map(|e| *e.1), Some(1));
        assert_eq!(a.find(&k(2, y << 7)).ok().map(|e| *e.1), Some(2));
    }
}''')
bug('join-keeps-left-count', 'C04',
 [(C, '''                size += right.size();
                bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();
                values_t.push(MNode::L(right.clone()));''', '''                size += left.map_or_else(|| right.size(), |node| node.size());
                bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();
                values_t.push(MNode::L(right.clone()));''')],
 'a joint transform of a branch with a collision chain at the same level where the slot of the chain is taken on the left by something of another size, which is dropped entirely while the chain is kept',
 'the reported size counts the dropped entries',
 '''fn main() {
    let a = m(&[(1, 0x05, 1), (2, 0x0d, 2)]);
    let b = m(&[(3, 0x05, 3), (4, 0x05, 4)]);
    let r = block_on(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_removed(()),
        new_map_transform_generic(|key: &K, _: &u32| if key.id == 1 { MapTransformResult::Removed(()) } else { MapTransformResult::Unchanged(()) }),
        new_map_transform_unchanged(()), Sequential)).0;
    same(&r, &[(2, 0x0d, 2), (3, 0x05, 3), (4, 0x05, 4)]);
}''')
bug('transmute-collapses-double-wrap', 'C08',
 [(C, '            MNode::C(cnode) => MNodeTransmuteResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),',
      '''            // No need to stack up levels that do not tell anything apart.
            MNode::C(cnode) if cnode.nodes.len() == 1 => MNodeTransmuteResult::C(cnode, reduced),
            MNode::C(cnode) => MNodeTransmuteResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),''', 1, 'pub(super) unsafe fn transmute<')],
 'a transmute after which two levels in a row have a single child, the lower of them a branch',
 'a level is left out, so the entries below are not found',
 '''fn main() {
    let a = m(&[(1, 0o000, 1), (2, 0o100, 2), (3, 0o002, 3)]);
    let r = unsafe { a.transmute(|_, _| (), new_map_transmute_generic(|key: &K, v: &u32| if key.id < 3 { MapTransmuteResult::<K, u32, ()>::Transmuted(key.clone(), *v, ()) } else { MapTransmuteResult::Removed(()) })).0 };
    same(&r, &[(1, 0o000, 1), (2, 0o100, 2)]);
}''')
bug('set-flip-dropped', 'C24',
 [('src/set.rs', 'SetJointTransform::Generic(g, flipped) => MapJointTransform::Generic(move |k:&_, _: &_, l:&_, _: &_| g(k, l).into(), flipped),',
   'SetJointTransform::Generic(g, _) => MapJointTransform::Generic(move |k:&_, _: &_, l:&_, _: &_| g(k, l).into(), false),')],
 'a flipped operator with a function given to the joint operation of two sets',
 'the operation asks the function about its sides in the order of the operator before it was flipped, and takes its answer unmirrored',
 '''fn main() {
    let seen = RefCell::new(vec![]);
    let (a, b) = (s(&[(1, 0x05)]), S::new().insert(kt(1, 9, 0x05), true).ok().unwrap().0);
    let asked = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let log = asked.clone();
    let op = new_set_joint_transform_generic(move |x: &K, y: &K| { log.lock().unwrap().push((x.tag, y.tag)); SetJointTransformResult::UnchangedL(1u32) });
    let (c, _) = block_on(a.transform_with_transformed(&b, add, op.flip(), new_set_transform_unchanged::<K, u32>(0), new_set_transform_unchanged::<K, u32>(0), Sequential));
    c.visit(|k: &K| seen.borrow_mut().push(k.tag));
    assert_eq!(*asked.lock().unwrap(), vec![(9, 0)]);
    assert_eq!(seen.into_inner(), vec![9]);
}''')
bug('map-flip-sticks', 'C24',
 [('src/transformations.rs', 'Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),', 'Self::Generic(f, flipped) => Self::Generic(f.clone(), true | flipped),', 1)],
 'a joint map operator flipped twice, by the user or on the way down where an entry or a chain faces a branch',
 'the second flip does nothing',
 '''fn main() {
    let op = new_map_joint_transform_generic(|_: &u32, _: &u32, _: &u32, _: &u32| MapJointTransformResult::<u32, ()>::UnchangedL(()));
    assert!(matches!(op.flip().flip().call(&1, &2, &1, &3), MapJointTransformResult::UnchangedL(())));
    assert!(matches!(op.flip().call(&1, &2, &1, &3), MapJointTransformResult::UnchangedR(())));
}''')
bug('map-flip-const', 'C24',
 [('src/transformations.rs', '            Self::UnchangedR(r) => Self::UnchangedL(r.clone()),', '            Self::UnchangedR(r) => Self::UnchangedR(r.clone()),', 1)],
 'the constant right operator of a joint map operation, flipped',
 'it still says right: it takes the entry of the wrong side wherever the library swaps the sides itself',
 '''fn main() {
    // an entry of its own against a branch two levels down
    let a = m(&[(1, 0x05, 10)]);
    let b = m(&[(1, 0x05, 20), (2, 0x45, 30)]);
    let (c, _) = block_on(a.transform_with_transformed(&b, add, new_map_joint_transform_unchangedr::<K, u32, u32>(0), new_map_transform_unchanged::<K, u32, u32>(0), new_map_transform_unchanged::<K, u32, u32>(0), Sequential));
    assert_eq!(get(&c, 1, 0x05), Some(20));
    assert!(matches!(new_map_joint_transform_unchangedr::<u32, u32, u32>(0).flip().call(&1, &2, &1, &3), MapJointTransformResult::UnchangedL(0)));
}''')
