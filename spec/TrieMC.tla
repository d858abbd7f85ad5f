------------------------------- MODULE TrieMC -------------------------------
(***************************************************************************)
(* Every trie reachable by insert, replace, remove, and removing subsets   *)
(* with a transform, for every way N keys' hashes can agree on Levels      *)
(* levels.  `m` is the abstract map next to the trie `t`.                  *)
(***************************************************************************)
EXTENDS Trie, Json, IOUtils
CONSTANTS N, Emit, Joins
K == 0..(N - 1)
(* hash layouts up to renaming keys and slots: block sizes in decreasing order (level 1), split again (level 2) *)
Part1 == {p \in [K -> K] : p[0] = 0 /\ \A k \in K \ {0} : p[k] = p[k - 1] \/ p[k] = p[k - 1] + 1}
Lay == {[k \in K |-> <<f[k], g[k]>>] : f \in Part1, g \in [K -> K]}
Blocks(x) == {{k \in K : x[k] = v} : v \in {x[k] : k \in K}}
Canon(x) == \* sub-slots count up from 0 within a block, blocks ordered by their shape (sorted sub-block sizes as a number)
  LET blk(k) == {j \in K : x[j][1] = x[k][1]}
      sub(k) == {j \in K : x[j] = x[k]}
      firstOf(S) == CHOOSE j \in S : \A i \in S : j <= i
      w(k) == LET B == blk(k) IN <<Cardinality(B), Cardinality({x[j][2] : j \in B}), Cardinality(sub(firstOf(B)))>>
      ge(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ (a[2] > b[2] \/ (a[2] = b[2] /\ a[3] >= b[3])))
  IN /\ \A k \in K : IF k = firstOf(blk(k)) THEN x[k][2] = 0 ELSE x[k][2] \in {x[k - 1][2], x[k - 1][2] + 1}
     /\ \A k \in K \ {0} : ge(w(k - 1), w(k))
     /\ \A k \in K : k + 1 \in blk(k) /\ x[k + 1] # x[k] => Cardinality(sub(k)) >= Cardinality(sub(k + 1))
Layouts == {x \in Lay : Canon(x)}
E0(k) == <<k, 0, 0>>
Code(P) == [j \in 1..N |-> IF j - 1 \in P THEN 4 ELSE 0]
Op1(tab) == [b |-> [cst |-> -1, table |-> tab, base |-> 0], l |-> [cst |-> -1, table |-> tab, base |-> 0], r |-> [cst |-> -1, table |-> tab, base |-> 0]]

VARIABLES lay, t, m, path
vars == <<lay, t, m, path>>
Init == lay \in Layouts /\ t = Empty /\ m = {} /\ path = <<>>
DoIns(k) == /\ t' = Ins(lay, t, E0(k), 0) /\ m' = Insert(m, E0(k), TRUE) /\ path' = Append(path, <<"i", k>>) /\ UNCHANGED lay
DoRem(k) == /\ Has(m, k) /\ t' = Root(Rem(lay, t, k, 0)) /\ m' = Remove(m, k) /\ path' = Append(path, <<"r", k>>) /\ UNCHANGED lay
DoTr(P)  == /\ P # {} /\ P \subseteq Ids(m)
            /\ t' = Root(Tr("f", "l", Op1([j \in 1..N |-> IF j - 1 \in P THEN 2 ELSE 0]), t).n)
            /\ m' = {e \in m : e[1] \notin P} /\ path' = Append(path, <<"t">> \o [j \in 1..N |-> IF j - 1 \in P THEN 2 ELSE 0]) /\ UNCHANGED lay
Next == \/ \E k \in K : DoIns(k) \/ DoRem(k)
        \/ \E P \in SUBSET K : DoTr(P)
Spec == Init /\ [][Next]_vars
View == <<lay, t>>

Refines == Ents(t) = m /\ Size(t) = Cardinality(m)
WellFormed == WF(lay, t, 0)
Lookup == \A k \in K : Find(lay, t, k, 0) = {e \in m : e[1] = k}

(* unary operations on this trie, all answers *)
Tabs(S) == [1..N -> S]
UnaryOk ==
  /\ \A tab \in Tabs({0, 1, 2}) :
       LET op == [Op1(tab) EXCEPT !.l.base = 100] r == Tr("f", "l", op, t) IN
       /\ Ents(Root(r.n)) = UnaryResult("f", m, op.l, FALSE) /\ Size(r.n) = Cardinality(Ents(r.n)) /\ WF(lay, Root(r.n), 0)
       /\ Lists(r.x, {<<"l", e[1]>> : e \in m})
       /\ (r.u # {}) = AllUnchanged(m, op.l, FALSE) /\ (r.u # {} => r.n = t)
  /\ \A tab \in Tabs({0, 2}) :
       LET op == [Op1(tab) EXCEPT !.l.base = 100] r == Tr("m", "l", op, t) IN
       /\ Ents(Root(r.n)) = UnaryResult("m", m, op.l, FALSE) /\ Size(r.n) = Cardinality(Ents(r.n)) /\ WF(lay, Root(r.n), 0)
       /\ Lists(r.x, {<<"l", e[1]>> : e \in m})

Done == IF Emit THEN PrintT("TRIE " \o ToJson([h |-> lay, c |-> {e[1] : e \in m}, p |-> path])) ELSE TRUE
=============================================================================
