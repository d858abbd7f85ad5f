------------------------------ MODULE TrieJoin ------------------------------
(***************************************************************************)
(* Joint operations on every pair of reachable tries over the same hashes, *)
(* with every answer of every callback: what Trie's algorithms return      *)
(* against MapSemantics.  The right trie's entries carry tag and value 1.  *)
(***************************************************************************)
EXTENDS TrieMC
CONSTANTS Kinds, Consts
VARIABLE b     \* the right trie; t is the left one, m its entries
jvars == <<vars, b>>
E1(k) == <<k, 1, 1>>
Keys(n) == Ids(Ents(n))
JInit == Init /\ b = Empty
BIns(k) == b' = Ins(lay, b, E1(k), 0)
BRem(k) == k \in Keys(b) /\ b' = Root(Rem(lay, b, k, 0))
BTr(P) == P # {} /\ P \subseteq Keys(b) /\ b' = Root(Tr("f", "l", Op1([j \in 1..N |-> IF j - 1 \in P THEN 2 ELSE 0]), b).n)
JNext == \/ Next /\ b = Empty /\ UNCHANGED b
         \/ UNCHANGED vars /\ ((\E k \in K : BIns(k) \/ BRem(k)) \/ \E P \in SUBSET K : BTr(P))
JSpec == JInit /\ [][JNext]_jvars
JView == <<lay, t, b>>

Codes(role) == IF role = "j" THEN 0..4 ELSE IF role = "f" THEN 0..2 ELSE {0, 2}
CstCodes(role) == IF role = "j" THEN {0, 1, 2, 4} ELSE IF role = "f" THEN {0, 2} ELSE {2}
Full(f, S) == [j \in 1..N |-> IF j - 1 \in S THEN f[j - 1] ELSE 0]
(* every assignment of answers to the calls that can happen *)
Ops(ro, A, B) ==
  LET both == A \cap B lo == A \ B rr == B \ A
      G(role, S, base) == {[cst |-> -1, table |-> Full(f, S), base |-> base] : f \in [S -> Codes(role)]}
      CC(role, base) == IF Consts THEN {[cst |-> c, table |-> <<>>, base |-> base] : c \in CstCodes(role)} ELSE {}
  IN [b : G(ro.b, both, 100) \cup CC(ro.b, 100), l : G(ro.l, lo, 200) \cup CC(ro.l, 200), r : G(ro.r, rr, 300) \cup CC(ro.r, 300)]
JoinOk1(kind, op) ==
  LET ro == Roles(kind) R == Ents(b) r == Join(lay, ro, op, t, b, 0) n == Root(r.n) IN
  /\ JointOk(kind, m, R, op, FALSE, Ents(n))
  /\ Size(n) = Cardinality(Ents(n)) /\ WF(lay, n, 0)
  /\ Lists(r.x, {<<"b", c[1]>> : c \in JointCallsB(m, R, op)} \cup {<<"l", e[1]>> : e \in JointCallsL(m, R, op)} \cup {<<"r", e[1]>> : e \in JointCallsR(m, R, op)})
  /\ ("l" \in r.u => n = t) /\ ("r" \in r.u /\ "l" \notin r.u => n = b)
JoinOk == \A kind \in Kinds : \A op \in Ops(Roles(kind), Ids(m), Keys(b)) : JoinOk1(kind, op)
=============================================================================
