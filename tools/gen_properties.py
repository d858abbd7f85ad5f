#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

MAP=["src/map.rs","src/hash_trie.rs","src/node/mnode.rs"]
NODES=["src/node/cnode.rs","src/node/lnode.rs","src/node/snode.rs"]

p("C01","Lookup answers exactly what the history of the map says",
  "For every map obtained by any sequence of operations (new, insert, remove, clone, transforms, transmutes, joint operations), looking up a key returns references to the stored key and value of the entry last recorded for that key, and reports not-found exactly when the map has no entry equal to that key. The answer never depends on which other keys are present or on the order in which they arrived.",
  ["inputs","histories"],"all keys looked up on all maps reachable by finite sequences of public operations, for every assignment of hash values to keys",
  "The tests insert 100 or 25000 consecutive/random integers once under FNV/u64/u32 and look present keys up; absent keys, colliding keys, lookups after removes and after joint operations are never sampled.",
  MAP+NODES+["src/flag.rs","src/bit_indexed_array.rs"],
  [("hash chunk per level selects one slot","src/flag.rs Flag::new/next"),("collision chain compares keys","src/node/lnode.rs find"),("slot lookup by rank","src/bit_indexed_array.rs at")],
  ["HashTrieMap::find","HashTrieSet::find"],
  [("root","node graph of one handle","src/hash_trie.rs HashTrie.root")])
p("C02","Insert adds, replaces or refuses, and touches no other entry",
  "Inserting a key that is absent yields a map with exactly the old entries plus that entry and reports no previous entry; inserting a present key without replacement yields no new map and returns the stored key and value; with replacement it yields a map where that entry's key and value are both the new ones, reports the old key and value as previous, and leaves all other entries as they were. The key and value pointers returned on success refer to the entry stored in the returned map.",
  ["inputs","histories"],"all (map, key, value, replace flag) with the map reachable by any operation sequence and any hash assignment, including colliding keys and keys that differ only in the last hash bits",
  "Tests insert mostly fresh integers; replacement is exercised only implicitly by duplicates, never inside a collision chain, and the returned pointers and previous entry are never compared.",
  MAP+NODES,[("path copying insert","src/node/cnode.rs CNode::insert"),("chain insert/replace","src/node/lnode.rs insert"),("lifting two entries to a branch","src/node/cnode.rs lift_to_cnode_and_insert")],
  ["HashTrieMap::insert","HashTrieSet::insert"])
p("C03","Remove deletes exactly the named entry",
  "Removing a present key yields a map with exactly the other entries, each unchanged, and returns the removed entry's stored key and value; removing an absent key reports not-found and yields no map. Any order of removals down to the empty map works, and the emptied map behaves like a new one.",
  ["inputs","histories"],"all (map, key) with the map reachable by any operation sequence and any hash assignment",
  "Only one doc example removes one key from a one-entry map; removal from branches, collision chains, after transforms and to empty is unsampled.",
  MAP+NODES+["src/bit_indexed_array.rs"],[("slot removal / child update","src/node/cnode.rs CNode::remove"),("chain shrink","src/node/lnode.rs remove_from_lnode")],
  ["HashTrieMap::remove","HashTrieSet::remove"])
p("C04","Size and visit enumerate each entry exactly once",
  "For every reachable map or set, the reported size equals the number of distinct keys it contains, and visiting calls the operation exactly once per entry with that entry's stored key and value and with nothing else.",
  ["inputs","histories"],"all maps reachable by any sequence of all operations, including results of transforms, transmutes and joint operations",
  "Tests check size() only for an empty result and never use visit; the cached sizes are maintained separately at some forty sites.",
  MAP+NODES,[("cached subtree size","src/node/cnode.rs size/extra"),("chain size","src/node/lnode.rs LNode.size"),("visit recursion","src/node/cnode.rs visit")],
  ["size","visit"],[("extra","cached number of entries below a branch","src/bit_indexed_array.rs BitIndexedArrayImpl.extra")])
p("C05","Every earlier handle keeps its contents forever",
  "No operation, successful or failed, changes the contents observable through any handle that existed before it, whether that handle was the receiver, the right-hand argument, a clone or an unrelated version sharing structure. References obtained from a handle keep denoting the same key and value for as long as the handle lives, and dropping other handles does not affect it.",
  ["histories"],"all interleavings of operations, clones and drops over any family of related versions",
  "Tests overwrite their only handle at each step and never look at an old version again.",
  MAP+NODES+["src/bit_indexed_array.rs"],[("nodes behind Arc, copied on write","src/bit_indexed_array.rs inserted/updated/removed"),("chain tails shared","src/node/lnode.rs LNodeNext")],
  ["find","visit","size","references returned by find/insert/remove"])
p("C06","Results do not depend on hash values or word widths",
  "For every hash function (including constant, truncated, or differing only in the highest bits) and every supported combination of hash word and flag word, every operation gives the same observable results as under a collision-free hash. This includes the ordinary standard-library hashers at every hash word width, branches with any number of occupied slots up to the flag word's width, and keys that only separate at the last level of the trie.",
  ["inputs","configurations"],"all hash assignments to keys x all compilable (hash word, flag word) pairs x all operations",
  "All tests use FNV with a 64-bit hash word and 32-bit flags, where collisions and deep paths never occur.",
  ["src/flag.rs","src/traits.rs","src/bit_indexed_array.rs"]+NODES,[("chunking of the hash","src/flag.rs new_at_depth"),("hash word conversion","src/traits.rs hasher_bv_impl"),("array size dispatch","src/bit_indexed_array.rs new_bit_indexed_array")],
  ["all map and set operations instantiated at u8..u128 words"])
p("C07","Transform keeps, rewrites or drops each entry as told",
  "Transforming a map yields exactly the entries for which the operation answered unchanged (same key, same value) plus those answered transformed (same key, the returned value), and none of those answered removed; the same holds for sets. The result behaves like any other map under later operations.",
  ["inputs","histories"],"all reachable maps, all assignments of unchanged/transformed/removed to entries, all hash assignments, both parallelism strategies",
  "Tests apply one uniform answer to all entries of a collision-free map; mixes of answers inside one branch or chain never occur.",
  ["src/map.rs","src/set.rs"]+NODES,[("per-slot rebuild with unchanged shortcut","src/node/cnode.rs transform/transform_impl"),("chain rebuild","src/node/lnode.rs transform_result")],
  ["transform"])
p("C08","Transmute rebuilds the map with the returned entries",
  "Transmuting a map (or set) to other key and value types with hash- and equality-preserving keys yields exactly the entries the operation returned as transmuted, each with the returned key and value, and none for those answered removed; the result behaves like any other map under later operations.",
  ["inputs","histories"],"all reachable maps, all assignments of transmuted/removed to entries, all hash assignments",
  "Tests transmute with one uniform answer on collision-free maps and look only at a few keys.",
  ["src/map.rs","src/set.rs"]+NODES,[("rebuild","src/node/cnode.rs transmute"),("chain rebuild","src/node/lnode.rs transmute_result")],["transmute"])
p("C09","Joint transform merges two maps entry by entry",
  "Jointly transforming a left and a right map of the same type yields, for each key in both, what the pair operation answered (the left entry, the right entry, either one, the returned value under that key, or nothing), for each key only in the left map what the left operation answered, for each key only in the right map what the right operation answered, and no other entry. The same holds for sets. The result behaves like any other map under later operations.",
  ["inputs","histories"],"all pairs of reachable maps (independent, versions of one another, or identical), all assignments of answers to entries and pairs, all hash assignments, both strategies",
  "Tests merge collision-free random maps with one uniform answer; collision chains on either side, mixed answers, shapes of different depth and right-biased answers are never sampled.",
  ["src/map.rs","src/set.rs"]+NODES,[("slotwise merge","src/node/cnode.rs transform_with_transformed_cnode*"),("chain/chain merge","src/node/lnode.rs transform_with_transformed_lnode*"),("entry against branch or chain","src/node/cnode.rs/lnode.rs transform_with_transformed_snode"),("flipping","src/transformations.rs MapJointTransform::flip")],
  ["transform_with_transformed"])
p("C10","Joint transform/transmute keeps left and converts right",
  "Jointly transforming a left map with a transmuted right map yields a map of the left type in which each key in both maps, each left-only key (unchanged, rewritten or removed) and each right-only key (converted or removed) appears exactly as the corresponding operation answered, and nothing else appears. The variant that preserves keys on the right stores the right entry's own key with the returned value. The result behaves like any other map under later operations.",
  ["inputs","histories"],"all pairs of reachable maps of possibly different types, all answers, all hash assignments, both strategies",
  "Same single test as for the joint transform: uniform answers, no collisions.",
  ["src/map.rs","src/set.rs"]+NODES,[("slotwise merge","src/node/cnode.rs transform_with_transmuted_*"),("chain merge","src/node/lnode.rs transform_with_transmuted_*")],["transform_with_transmuted","transform_with_transfuted"])
p("C11","Joint transmute/transform converts left and keeps right",
  "Jointly transmuting a left map with a transformed right map yields a map of the right type in which each key in both maps, each right-only key (unchanged, rewritten or removed) and each left-only key (converted or removed) appears exactly as the corresponding operation answered, and nothing else appears. The variant that preserves keys on the left stores the left entry's own key with the returned value. The result behaves like any other map under later operations.",
  ["inputs","histories"],"all pairs of reachable maps of possibly different types, all answers, all hash assignments, both strategies",
  "Same single test as for the joint transform: uniform answers, no collisions.",
  ["src/map.rs","src/set.rs"]+NODES,[("slotwise merge","src/node/cnode.rs transmute_with_transformed_*"),("chain merge","src/node/lnode.rs transmute_with_transformed")],["transmute_with_transformed","transfute_with_transformed"])
p("C12","Joint transmute converts both maps entry by entry",
  "Jointly transmuting a left and a right map into a third type yields exactly the entries returned as transmuted by the pair operation for keys in both maps, by the left operation for left-only keys and by the right operation for right-only keys, and nothing for those answered removed. The result behaves like any other map under later operations.",
  ["inputs","histories"],"all pairs of reachable maps of possibly different types, all answers, all hash assignments",
  "Same single test as for the joint transform: uniform answers, no collisions.",
  ["src/map.rs","src/set.rs"]+NODES,[("slotwise merge","src/node/cnode.rs transmute_with_transmuted_*"),("chain merge","src/node/lnode.rs transmute_with_transmuted_*")],["transmute_with_transmuted"])
p("C13","Callbacks run once per entry and the reduction misses nothing",
  "In every transform, transmute and joint operation with caller-supplied functions, each function is called exactly once for every entry (or pair of entries with equal keys) it is responsible for and for no other, with the stored keys and values in left, right order. The returned reduction is the combination of every secondary result returned by those calls, each used exactly once, for every commutative and associative reducer whose identity is the default value.",
  ["inputs","histories"],"all reachable (pairs of) maps, all answers, all hash assignments, both strategies, all commutative monoids (decided on the free one: bags)",
  "Tests compare wrapping sums of the four joint operations with each other on collision-free maps with one uniform answer.",
  NODES+["src/node/mnode.rs"],[("reduce_op folding","src/node/cnode.rs reduced = reduce_op(..)"),("chain folding","src/node/lnode.rs *_result")],["callbacks","second component of the returned pair"])
p("C14","The parallelism strategy never changes the result",
  "For every transform and joint operation, running it with either parallelism strategy on the same arguments yields maps with the same entries and sizes, the same calls of the caller's functions up to order, and the same reduction for commutative reducers.",
  ["inputs","configurations"],"all (pairs of) reachable maps, answers and hash assignments, for each strategy",
  "Tests run only the default parallel strategy.",
  ["src/node/cnode.rs","src/enums.rs"],[("two-half split and merge","src/node/cnode.rs transform, transform_with_transformed_cnode")],["transform*, joint operations with ParallelismStrategy"])
p("C15","Constant operators behave like functions with that answer",
  "Using a constant operator (unchanged, left, right, either, removed) in any position of a transform, transmute or joint operation yields the same resulting entries as using a function that always gives that answer, whatever the other positions hold, and does not suppress the calls of caller-supplied functions in the other positions.",
  ["inputs","configurations"],"all combinations of constant and caller-supplied operators in the pair/left/right positions x all pairs of reachable maps x all hash assignments x both strategies",
  "Tests use one constant (removed) in a plain transform; no joint operation is ever run with a constant operator.",
  ["src/transformations.rs"]+NODES,[("short cuts for constants","src/node/cnode.rs transform_with_transformed_cnode"),("operator call/flip","src/transformations.rs")],["transform*, transmute*, joint operations"])
p("C16","A set behaves as a map whose values carry nothing",
  "Every set operation, on every history, gives the same sizes, keys, found/refused/removed keys, visits, reductions and resulting members as the corresponding map operation on a map holding the same keys.",
  ["inputs","histories"],"all sequences of set operations, all hash assignments, both strategies",
  "Set tests are separate happy-path copies of the map tests; replace/remove/joint outcomes are not compared with maps.",
  ["src/set.rs","src/transformations.rs","src/results.rs"],[("adapters to the map operations","src/set.rs")],["all HashTrieSet operations"])
p("C17","Handle equality never lies and follows identity",
  "Two handles compare equal only if they have the same entries; a handle always equals itself and its clones, and a transform of a non-empty map in which every answer is unchanged returns a handle equal to its source. Equality is symmetric and transitive, and is not affected by later operations on either handle.",
  ["histories"],"all pairs of handles in all histories",
  "No test compares two handles.",
  ["src/node/mnode.rs","src/hash_trie.rs","src/node/cnode.rs"],[("pointer comparison of roots","src/node/mnode.rs PartialEq"),("unchanged shortcut","src/node/cnode.rs transform")],["PartialEq on HashTrieMap/HashTrieSet"])
p("C18","Updates share untouched entries instead of copying them",
  "Lookup, visiting, cloning a handle and size never clone a stored key or value; insert and remove clone no stored key or value except possibly those of entries whose full hash equals that of the given key; transform clones only the keys of entries it rewrites and entries whose full hash equals that of another entry of the map; joint operations likewise clone only the keys of entries they rewrite and entries whose full hash equals that of another entry of either map. Entries that are kept and not cloned are the same instances, at the same address, in the old and the new map.",
  ["inputs","histories"],"all reachable maps and all arguments",
  "Tests use Copy integers, so copying instead of sharing is invisible to them.",
  ["src/node/cnode.rs","src/node/snode.rs","src/node/lnode.rs","src/bit_indexed_array.rs"],[("Arc sharing of children","src/bit_indexed_array.rs"),("unchanged child reuse","src/node/cnode.rs transform_impl")],["Clone calls on K and V, addresses of found references"])
p("C19","Every stored key and value is dropped exactly once",
  "Once all handles are gone, every key and value the library was given, cloned or received from a callback has been dropped exactly once; while a handle lives none of its entries has been dropped, and keys and values no longer reachable from any live handle are not retained.",
  ["histories"],"all histories of operations, clones and drops",
  "Tests use integers without destructors; the slot arrays are filled through uninitialised memory and raw writes, which only drop-counting can observe.",
  ["src/bit_indexed_array.rs","src/node/cnode.rs"],[("uninitialised array filled by ptr::write","src/bit_indexed_array.rs"),("Arc ownership","src/node/*.rs")],["Drop of K and V"])
p("C20","Shared handles can be used from many threads at once",
  "When several threads concurrently read, clone, derive new versions from and drop handles sharing structure, each thread observes exactly the results it would observe alone, and all keys and values are still dropped exactly once.",
  ["schedules"],"all thread interleavings of operations over shared handles",
  "No test uses a second thread.",
  ["src/node/mnode.rs","src/node/cnode.rs","src/bit_indexed_array.rs"],[("unsafe Send/Sync","src/node/mnode.rs, src/node/cnode.rs"),("Arc reference counts","src/node")],["all operations from several threads"])
p("C21","A panicking callback, clone or comparison damages nothing",
  "If a caller-supplied function, key comparison, conversion, clone or hash panics at any point during an operation, all handles that existed before keep their contents and stay usable, and no key or value is dropped twice, leaked, or lost by handles that remain.",
  ["fault_sequences"],"every operation x every position of the panicking call",
  "No test panics inside a callback.",
  NODES+["src/bit_indexed_array.rs"],[("functional update: nothing published before completion","src/node")],["catch_unwind around operations, then find/visit/size on old handles"])
p("C22","Equivalent key types are interchangeable",
  "For key types declared hash- and equality-compatible, find, insert and remove called with the other type give the same outcome as with the converted key; insert stores the converted key and value.",
  ["inputs","histories"],"all maps, keys and pairs of compatible types, including inside collision chains",
  "Doc tests use one borrowed-string lookup on a one-entry map.",
  ["src/map.rs","src/hash_trie.rs","src/traits.rs"],[("HashLike bounds and Into conversion","src/map.rs insert/find/remove")],["find/insert/remove with L != K"])
p("C23","Word traits implement finite sets of bit positions",
  "For every supported unsigned word type, membership, rank, insertion, removal, disjoint merge, counting, nth-bit, capacity, log size and chunk mask behave as the corresponding operations on the set of bit positions, and each documented error is returned exactly under its documented condition (not exactly one bit, bit present, bit absent, out of range).",
  ["inputs","configurations"],"all words and arguments of u8, u16, u32, u64, u128 and usize",
  "No unit test calls them directly; maps only reach valid arguments of one width.",
  ["src/traits.rs","src/results.rs"],[("bit macros","src/traits.rs")],["public traits BitContains, BitIndex, BitInsert, BitMerge, BitRemove, CountOnes, NthBit, LogB, MaxOnes, MaskLogB, AsUsize"])
p("C24","Operator call and flip obey the mirror law",
  "Calling an operator value yields its function's answer on those arguments or its constant; calling a flipped operator on swapped arguments yields the mirror image of the original answer (left and right exchanged, everything else kept), and flipping twice gives back the original behaviour.",
  ["inputs"],"all public operator variants, answers and arguments, any number of flips",
  "Never tested directly; maps with collision-free keys rarely flip.",
  ["src/transformations.rs","src/results.rs"],[("flip/call","src/transformations.rs"),("result flip","src/results.rs")],["MapJointTransform, SetJointTransform, MapTransform, SetTransform, MapTransmute, SetTransmute"])
p("C25","Every operation completes on every valid input",
  "No operation panics, overflows, or fails to terminate on any valid input: whatever the keys, hash values, word widths, shapes of the maps, operators and strategies, each call returns one of its documented outcomes within resources proportional to the maps involved.",
  ["inputs","configurations","histories"],"all operations on all reachable maps for all hash assignments, word widths and operators",
  "Tests stay on collision-free shallow tries, so the many panic!/unwrap arms and chain loops are never reached.",
  NODES+["src/flag.rs","src/traits.rs","src/bit_indexed_array.rs"],[("unwrap/panic arms","src/node/*.rs"),("chain walks","src/node/lnode.rs"),("depth bound","src/flag.rs")],["all operations under a watchdog"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
