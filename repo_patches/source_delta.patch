From c4e2c8399b2f48a620d4f4415c8e591fb25908e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 1/6] fix: do not shift the hash past its width below the
 deepest level of the trie

---
 src/flag.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/flag.rs b/src/flag.rs
index eaa1e56..88f9d59 100644
--- a/src/flag.rs
+++ b/src/flag.rs
@@ -20,14 +20,22 @@ impl <H: Hashword, F: Flagword<H>> Flag<H, F> where <F as core::convert::TryFrom
 
     #[must_use]
     pub(crate) fn new_at_depth(hash_value: H, depth: usize) -> Option<Self> {
-        if depth * F::log_b() >= 8 * <H>::max_ones() {
+        if depth * F::log_b() >= <H>::max_ones() + F::log_b() {
             None
         }
         else {
+            // One level past the last bits of the hash there is nothing left to select on, so every key falls in the first slot.
+            let index = if depth * F::log_b() >= <H>::max_ones() {
+                0
+            }
+            else {
+                F::try_from(H::from(hash_value.clone().shr(depth * F::log_b())).bitand(F::mask_log_b())).unwrap().as_usize()
+            };
+
             Some(Flag {
-                hash_value: hash_value.clone(),
+                hash_value: hash_value,
                 depth: depth,
-                flag: F::nth_bit(F::try_from(H::from(hash_value.shr(depth * F::log_b())).bitand(F::mask_log_b())).unwrap().as_usize()).unwrap()
+                flag: F::nth_bit(index).unwrap()
             })
         }
     }
-- 
2.43.0


From fd28dd628b6575e0393e5649379e559968c70ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 2/6] fix: walk the whole right chain when joining two
 collision chains

---
 src/node/lnode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index f873bef..3ba1131 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -308,7 +308,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
@@ -446,7 +446,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
@@ -567,7 +567,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
-- 
2.43.0


From afe2958ec413e5316f089187a0433fb4811359ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 3/6] fix: flip the constant left and right joint
 transformations

---
 src/transformations.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index a64ea93..2ff1d5d 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -41,8 +41,8 @@ impl <ReduceT: Clone, F: Clone> MapJointTransform<ReduceT, F> {
         match self {
             Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),
             Self::UnchangedLR(r) => Self::UnchangedLR(r.clone()),
-            Self::UnchangedL(r) => Self::UnchangedL(r.clone()),
-            Self::UnchangedR(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedL(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedR(r) => Self::UnchangedL(r.clone()),
             Self::Removed(r) => Self::Removed(r.clone()),
         }
     }
@@ -114,8 +114,8 @@ impl <ReduceT: Clone, F: Clone> SetJointTransform<ReduceT, F> {
         match self {
             Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),
             Self::UnchangedLR(r) => Self::UnchangedLR(r.clone()),
-            Self::UnchangedL(r) => Self::UnchangedL(r.clone()),
-            Self::UnchangedR(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedL(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedR(r) => Self::UnchangedL(r.clone()),
             Self::Removed(r) => Self::Removed(r.clone()),
         }
     }
-- 
2.43.0


From 1e031f064b0875c5173aba9f40a77dfec79e858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 4/6] fix: keep the right entry when a joint transform of two
 collision chains asks for it

---
 src/node/lnode.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index 3ba1131..3e148a7 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -391,15 +391,16 @@ where
     LeftOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
     RightOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
 {
-    let mut next_node = None;
-
     let next = match &this.next {
         LNodeNext::L(lnode) => transform_with_transformed_lnode_impl(lnode, rights, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone()),
         LNodeNext::S(snode) => {
             match rights.iter().position(|key_value| *snode.key() == *key_value.0).map(|index| rights.swap_remove(index)) {
                 Some((right_key, right_value)) => {
-                    next_node = Some((right_key, right_value));
-                    snode::transform_with_transformed_snode_impl(snode, &SNode::new(right_key.clone(), right_value.clone()), reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone())
+                    let right_snode = SNode::new(right_key.clone(), right_value.clone());
+                    match snode::transform_with_transformed_snode_impl(snode, &right_snode, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone()) {
+                        LNodeJointTransformResult::UnchangedR(reduced) => LNodeJointTransformResult::S(right_snode, reduced), // The rest of the right chain is not settled yet
+                        result => result,
+                    }
                 },
                 None => match snode::transform(snode, left_op.clone()) {
                     SNodeTransformResult::Unchanged(reduced) => LNodeJointTransformResult::UnchangedL(reduced),
@@ -410,7 +411,8 @@ where
         },
     };
 
-    let result = match rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {
+    let that = rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index));
+    let result = match that {
         Some((right_key, right_value)) => both_op.call(&this.key, &this.value, right_key, right_value),
         None => match left_op.call(&this.key, &this.value) {
             MapTransformResult::Unchanged(reduced) => MapJointTransformResult::UnchangedL(reduced),
@@ -419,7 +421,7 @@ where
         },
     };
 
-    joint_transform_with_joint_transformed_result(this, result, next_node, next, reduce_op)
+    joint_transform_with_joint_transformed_result(this, result, that, next, reduce_op)
 }
 
 pub(crate) unsafe fn transform_with_transmuted_lnode<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M: HasherBv<H, K>, ReduceT, ReduceOp, BothOp, LeftOp, RightOp>(this: &Arc<LNode<K, V>>, right: &Arc<LNode<L, W>>, reduce_op: ReduceOp, both_op: MapTransform<ReduceT, BothOp>, left_op: MapTransform<ReduceT, LeftOp>, right_op: MapTransmute<ReduceT, RightOp>, depth: usize) -> MNodeTransformResult<H, F, K, V, M, ReduceT>
@@ -978,28 +980,28 @@ where
         MapJointTransformResult::UnchangedLR(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) => LNodeJointTransformResult::UnchangedLR(reduce_op(&lr, &rr)),
             LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::UnchangedR(reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => unreachable!(),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::UnchangedL(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => unreachable!(),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::UnchangedR(lr) => match next {
-            LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), this.next.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), this.next.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => unreachable!(),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::UnchangedR(reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::Transformed(lv, lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(this.key().clone(), lv, this.next.clone()), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => unreachable!(),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), lv, LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), lv, LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), lv), reduce_op(&lr, &rr)),
@@ -1009,7 +1011,7 @@ where
                 LNodeNext::L(lnode) => LNodeJointTransformResult::L(lnode.clone(), reduce_op(&lr, &rr)),
                 LNodeNext::S(snode) => LNodeJointTransformResult::S(snode.clone(), reduce_op(&lr, &rr)),
             },
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => unreachable!(),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(lnode, reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::S(snode, reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::Removed(reduce_op(&lr, &rr)),
-- 
2.43.0


From d1d6d08bc459791a4761177e40919b4751b455d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 5/6] fix: do not keep the replaced rest of a collision chain
 joined with a single entry

---
 src/node/lnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index 3e148a7..cedc785 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -1093,7 +1093,7 @@ where
     match result {
         MapTransformResult::Unchanged(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(that.key().clone(), that.value().clone(), LNodeNext::L(this.clone())), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(that.clone())), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
-- 
2.43.0


From db4075a5aebb680954b8f080b89115a25ded1950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 6/6] fix: fold 64-bit hasher output into narrower hash words
 instead of panicking

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 1aef9a0..a6b833c 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -1,6 +1,6 @@
 use crate::results::BitError;
 use alloc::fmt::Debug;
-use core::{convert::{TryFrom, TryInto}, hash::{Hash, Hasher}, mem, ops::*};
+use core::{convert::TryFrom, hash::{Hash, Hasher}, mem, ops::*};
 
 macro_rules! bit_count_one {
     ( $bit:expr) => {
@@ -256,7 +256,7 @@ macro_rules! hasher_bv_impl {
             fn hash(&self, value: &V) -> $type {
                 let mut hasher = H::default();
                 value.hash(&mut hasher);
-                hasher.finish().try_into().unwrap()
+                hasher.finish() as $type
             }
         }
     };
-- 
2.43.0

