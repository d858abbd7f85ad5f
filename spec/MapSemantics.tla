---------------------------- MODULE MapSemantics ----------------------------
(***************************************************************************)
(* What every public operation of hash-trie must return, as pure operators *)
(* over finite maps.  A map is a set of entries <<id, tag, val>> with      *)
(* distinct ids: `id` is the part of a key that equality sees, `tag` tells *)
(* equal keys apart, `val` is the value.  A set is a map whose values are 0.*)
(*                                                                         *)
(* Callbacks are answer tables.  The callback for entry number id answers  *)
(* with a code and with a number x = base + id, which serves as the new    *)
(* value, the new tag and the secondary (reduce) result at once, so every  *)
(* number identifies the call it came from.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ids(m) == {e[1] : e \in m}
Has(m, k) == \E e \in m : e[1] = k
At(m, k) == IF Has(m, k) THEN CHOOSE e \in m : e[1] = k ELSE <<k, -1, -1>>
IsMap(m) == Cardinality(Ids(m)) = Cardinality(m)
(* the entries of m whose key is, or is not, in n *)
Within(m, n) == LET I == Ids(n) IN {e \in m : e[1] \in I}
Without(m, n) == LET I == Ids(n) IN {e \in m : e[1] \notin I}
Range(s) == {s[i] : i \in DOMAIN s}
(* a sequence that lists the elements of S once each, in any order *)
Lists(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S

InsertOk(m, k, rep) == rep \/ ~Has(m, k)
Insert(m, e, rep) == {x \in m : x[1] # e[1]} \cup {e}
Remove(m, k) == {x \in m : x[1] # k}

(***************************************************************************)
(* Operator roles: "j" joint transform pair, "f" transform, "m" transmute, *)
(* "t" transfute (transmute that keeps the key).                           *)
(* c is the code of a generic answer, or of a constant operator.           *)
(* Normalised: j: 0 either 1 left 2 right 3 rewritten 4 removed            *)
(*             f: 0 unchanged 1 rewritten 2 removed;  m,t: 1 kept 2 removed *)
(***************************************************************************)
Norm(role, c, const, set) ==
  CASE role = "j" -> IF c <= 2 THEN c ELSE IF c = 3 /\ ~const /\ ~set THEN 3 ELSE 4
    [] role = "f" -> IF c = 0 THEN 0 ELSE IF c = 1 /\ ~const /\ ~set THEN 1 ELSE 2
    [] OTHER      -> IF c <= 1 /\ ~const THEN 1 ELSE 2

(* the entries one of which must be present for entry e (none: {}), given the normalised answer *)
OneOut(role, e, c, x, set) ==
  CASE role = "f" -> IF c = 0 THEN {e} ELSE IF c = 1 THEN {<<e[1], e[2], x>>} ELSE {}
    [] role = "m" -> IF c = 1 THEN {<<e[1], x, IF set THEN 0 ELSE x>>} ELSE {}
    [] role = "t" -> IF c = 1 THEN {<<e[1], e[2], x>>} ELSE {}

(* answer of one operator for id: cst >= 0 is a constant operator *)
Ans(role, cst, table, id, set) ==
  IF cst >= 0 THEN Norm(role, cst, TRUE, set)
  ELSE Norm(role, IF id < Len(table) THEN table[id + 1] ELSE 4, FALSE, set)

(* one operator on every entry of m (written so that TLC keeps the entries in order) *)
Outs(role, m, op, set) ==
  LET out(e) == OneOut(role, e, Ans(role, op.cst, op.table, e[1], set), op.base + e[1], set)
  IN {CHOOSE y \in out(e) : TRUE : e \in {z \in m : out(z) # {}}}

(* the same for a pair with equal keys; side: which side's entries a plain "f" answer speaks about *)
PairOut(role, side, l, r, c, x, set) ==
  CASE role = "j" -> (CASE c = 0 -> {l, r} [] c = 1 -> {l} [] c = 2 -> {r}
                        [] c = 3 -> {<<l[1], l[2], x>>, <<l[1], r[2], x>>} [] OTHER -> {})
    [] role = "f" -> OneOut("f", IF side = "l" THEN l ELSE r, c, x, set)
    [] role = "m" -> OneOut("m", l, c, x, set)

(* a joint operation: roles of the three operators, and what a both-"f" keeps *)
Roles(kind) ==
  CASE kind = "ff"  -> [b |-> "j", l |-> "f", r |-> "f", side |-> "l"]
    [] kind = "fm"  -> [b |-> "f", l |-> "f", r |-> "m", side |-> "l"]
    [] kind = "ftr" -> [b |-> "f", l |-> "f", r |-> "t", side |-> "l"]
    [] kind = "mf"  -> [b |-> "f", l |-> "m", r |-> "f", side |-> "r"]
    [] kind = "mtr" -> [b |-> "f", l |-> "t", r |-> "f", side |-> "r"]
    [] kind = "mm"  -> [b |-> "m", l |-> "m", r |-> "m", side |-> "l"]

(***************************************************************************)
(* op = [b, l, r : [cst, table, base]].  The result of a joint operation   *)
(* is any map R with R \subseteq Allowed and Ids(R) = Ids(Allowed).        *)
(***************************************************************************)
JointAllowed(kind, L, R, op, set) ==
  LET ro == Roles(kind) IN
  UNION {PairOut(ro.b, ro.side, l, At(R, l[1]), Ans(ro.b, op.b.cst, op.b.table, l[1], set), op.b.base + l[1], set) : l \in Within(L, R)}
  \cup Outs(ro.l, Without(L, R), op.l, set)
  \cup Outs(ro.r, Without(R, L), op.r, set)
JointOk(kind, L, R, op, set, res) ==
  LET al == JointAllowed(kind, L, R, op, set) IN IsMap(res) /\ res \subseteq al /\ Ids(res) = Ids(al)
(* the calls a joint operation makes: generic operators only, each entry or pair once *)
JointCallsB(L, R, op) == IF op.b.cst >= 0 THEN {} ELSE {l \o At(R, l[1]) : l \in Within(L, R)}
JointCallsL(L, R, op) == IF op.l.cst >= 0 THEN {} ELSE Without(L, R)
JointCallsR(L, R, op) == IF op.r.cst >= 0 THEN {} ELSE Without(R, L)
JointReduction(L, R, op) ==
  {op.b.base + c[1] : c \in JointCallsB(L, R, op)} \cup {op.l.base + c[1] : c \in JointCallsL(L, R, op)}
  \cup {op.r.base + c[1] : c \in JointCallsR(L, R, op)}

(* unary operations: role "f" (transform) or "m" (transmute), op = [cst, table, base] *)
UnaryResult(role, m, op, set) ==
  Outs(role, m, op, set)
UnaryCalls(m, op) == IF op.cst >= 0 THEN {} ELSE m
UnaryReduction(m, op) == {op.base + e[1] : e \in UnaryCalls(m, op)}
AllUnchanged(m, op, set) == \A e \in m : Ans("f", op.cst, op.table, e[1], set) = 0

(***************************************************************************)
(* Sharing: the ids whose stored entry must be the very same one after the *)
(* operation as in its input, and the ids whose keys it may copy because   *)
(* it stores them with another value.  Entries that share their full hash  *)
(* with another one are exempt from the former (`peers`).                  *)
(***************************************************************************)
UnaryKept(m, op, set) == {e[1] : e \in {y \in m : Ans("f", op.cst, op.table, y[1], set) = 0}}
UnaryRewritten(m, op, set) == {e[1] : e \in {y \in m : Ans("f", op.cst, op.table, y[1], set) = 1}}
JointShare(kind, A, B, op, set) ==
  LET ro == Roles(kind)
      both == Ids(A) \cap Ids(B)  OL == Ids(A) \ both  OR == Ids(B) \ both
      ans(role, o, id) == Ans(role, o.cst, o.table, id, set)
  IN [left |-> (IF ro.l = "f" THEN {x \in OL : ans("f", op.l, x) = 0} ELSE {})
               \cup {x \in both : (ro.b = "j" /\ ans("j", op.b, x) = 1) \/ (ro.b = "f" /\ ro.side = "l" /\ ans("f", op.b, x) = 0)},
      right |-> (IF ro.r = "f" THEN {x \in OR : ans("f", op.r, x) = 0} ELSE {})
               \cup {x \in both : (ro.b = "j" /\ ans("j", op.b, x) = 2) \/ (ro.b = "f" /\ ro.side = "r" /\ ans("f", op.b, x) = 0)},
      either |-> {x \in both : ro.b = "j" /\ ans("j", op.b, x) = 0},
      rewritten |-> {x \in both : (ro.b = "j" /\ ans("j", op.b, x) = 3) \/ (ro.b = "f" /\ ans("f", op.b, x) = 1)}
              \cup {x \in OL : ro.l \in {"f", "t"} /\ ans(ro.l, op.l, x) = 1} \cup {x \in OR : ro.r \in {"f", "t"} /\ ans(ro.r, op.r, x) = 1}]
=============================================================================
