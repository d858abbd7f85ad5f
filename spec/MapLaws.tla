------------------------------ MODULE MapLaws ------------------------------
(***************************************************************************)
(* Laws between operations, over every pair of maps and every operator of  *)
(* a small universe: constants are functions with that answer (C15),       *)
(* mirrored calls (C11 from C10, C24), sets are maps without values (C16), *)
(* equivalent keys (C22), the usual set algebra (C09).                     *)
(***************************************************************************)
EXTENDS MapSemantics, TLC
CONSTANTS N, Vals  \* Vals: how many different values an entry may have
K == 0..(N - 1)
MapsOf(x) == UNION {{ {<<k, f[k], f[k]>> : k \in S} : f \in [S -> x..(x + Vals - 1)]} : S \in SUBSET K}
VARIABLES L, R
Init == L \in MapsOf(0) /\ R \in MapsOf(5)
Next == UNCHANGED <<L, R>>
Spec == Init /\ [][Next]_<<L, R>>

Kinds == {"ff", "fm", "ftr", "mf", "mtr", "mm"}
Codes(role) == IF role = "j" THEN 0..4 ELSE 0..2
Gen(t, base) == [cst |-> -1, table |-> t, base |-> base]
Cst(c, base) == [cst |-> c, table |-> <<>>, base |-> base]
Same(c) == [k \in 1..N |-> c]
(* the constants an operator position accepts *)
Consts(role) == IF role = "j" THEN {0, 1, 2, 4} ELSE IF role = "f" THEN {0, 2} ELSE {2}
Tables(role) == [1..N -> Codes(role)]

(* C15: in any position, whatever the others hold *)
AsGen(role, op) == IF op.cst < 0 THEN op ELSE Gen(Same(op.cst), op.base)
Pos(role, base) == {Gen(t, base) : t \in Tables(role)} \cup {Cst(c, base) : c \in Consts(role)}
ConstLaw == \A kind \in Kinds : LET ro == Roles(kind) IN
  \A b \in Pos(ro.b, 100), l \in {Cst(c, 200) : c \in Consts(ro.l)} \cup {Gen(Same(1), 200)}, r \in {Cst(c, 300) : c \in Consts(ro.r)} \cup {Gen(Same(1), 300)} :
    LET op == [b |-> b, l |-> l, r |-> r] og == [b |-> AsGen(ro.b, b), l |-> AsGen(ro.l, l), r |-> AsGen(ro.r, r)] IN
    /\ JointAllowed(kind, L, R, op, FALSE) = JointAllowed(kind, L, R, og, FALSE)
    /\ b.cst < 0 => JointCallsB(L, R, op) = JointCallsB(L, R, og)
    /\ l.cst < 0 => JointCallsL(L, R, op) = JointCallsL(L, R, og)
    /\ r.cst < 0 => JointCallsR(L, R, op) = JointCallsR(L, R, og)
UnaryConstLaw == \A role \in {"f", "m"} : \A c \in Consts(role) :
  UnaryResult(role, L, Cst(c, 100), FALSE) = UnaryResult(role, L, Gen(Same(c), 100), FALSE)

(* mirrored: operands and operators exchanged *)
MirrorKind(kind) == CASE kind = "fm" -> "mf" [] kind = "ftr" -> "mtr" [] kind = "mf" -> "fm" [] kind = "mtr" -> "ftr" [] OTHER -> kind
Mir(c) == IF c = 1 THEN 2 ELSE IF c = 2 THEN 1 ELSE c
MirOp(kind, op) == IF kind # "ff" THEN op ELSE IF op.cst >= 0 THEN [op EXCEPT !.cst = Mir(@)] ELSE [op EXCEPT !.table = [k \in DOMAIN @ |-> Mir(@[k])]]
MirrorLaw == \A kind \in {"ff", "fm", "ftr", "mf", "mtr"} : LET ro == Roles(kind) IN
  \A b \in Pos(ro.b, 100), l \in {Cst(c, 200) : c \in Consts(ro.l)} \cup {Gen(t, 200) : t \in Tables(ro.l)}, r \in {Cst(2, 300), Gen(Same(0), 300), Gen(Same(1), 300)} :
    LET op == [b |-> b, l |-> l, r |-> r] om == [b |-> MirOp(kind, b), l |-> r, r |-> l] mk == MirrorKind(kind) IN
    /\ JointAllowed(kind, L, R, op, FALSE) = JointAllowed(mk, R, L, om, FALSE)
    /\ JointCallsL(L, R, op) = JointCallsR(R, L, om) /\ JointCallsR(L, R, op) = JointCallsL(R, L, om)
    /\ {<<c[4], c[5], c[6], c[1], c[2], c[3]>> : c \in JointCallsB(L, R, op)} = JointCallsB(R, L, om)

(* C16 *)
Set(m) == {<<e[1], e[2], 0>> : e \in m}
SetCodes(role) == IF role = "j" THEN {0, 1, 2, 4} ELSE {0, 2}
SetLaw == \A kind \in Kinds \ {"ftr", "mtr"} : LET ro == Roles(kind) IN
  \A b \in {Gen(t, 100) : t \in [1..N -> SetCodes(ro.b)]}, l \in {Gen(t, 200) : t \in [1..N -> SetCodes(ro.l)]}, r \in {Gen(t, 300) : t \in [1..N -> SetCodes(ro.r)]} :
    LET op == [b |-> b, l |-> l, r |-> r] IN
    /\ Set(JointAllowed(kind, L, R, op, FALSE)) = JointAllowed(kind, Set(L), Set(R), op, TRUE)
    /\ JointReduction(L, R, op) = JointReduction(Set(L), Set(R), op)

(* readings: union, intersection, difference, symmetric difference *)
Joint(b, l, r) == JointAllowed("ff", L, R, [b |-> Cst(b, 0), l |-> Cst(l, 0), r |-> Cst(r, 0)], FALSE)
Algebra ==
  /\ Joint(1, 0, 0) = L \cup Without(R, L) /\ Joint(2, 0, 0) = R \cup Without(L, R)
  /\ Joint(1, 2, 2) = Within(L, R) /\ Joint(2, 2, 2) = Within(R, L)
  /\ Joint(4, 0, 2) = Without(L, R) /\ Joint(4, 2, 0) = Without(R, L)
  /\ Joint(4, 0, 0) = Without(L, R) \cup Without(R, L)
  /\ Joint(1, 0, 2) = L /\ Joint(2, 2, 0) = R /\ Joint(4, 2, 2) = {}
  /\ JointOk("ff", L, R, [b |-> Cst(0, 0), l |-> Cst(0, 0), r |-> Cst(0, 0)], FALSE, Joint(1, 0, 0))
  /\ JointOk("ff", L, R, [b |-> Cst(0, 0), l |-> Cst(0, 0), r |-> Cst(0, 0)], FALSE, Joint(2, 0, 0))
(* a result is always a map, and JointOk admits exactly the choices between the sides *)
Total == \A kind \in Kinds : LET ro == Roles(kind) IN
  \A b \in {Gen(t, 100) : t \in Tables(ro.b)}, l \in {Gen(Same(1), 200)}, r \in {Gen(Same(1), 300)} :
    LET al == JointAllowed(kind, L, R, [b |-> b, l |-> l, r |-> r], FALSE) IN
    \E x \in {{CHOOSE e \in al : e[1] = k : k \in Ids(al)}} : IsMap(x) /\ Ids(x) \subseteq Ids(L) \cup Ids(R)
(* point updates *)
Points == \A k, j \in K : LET e == <<k, 9, 9>> f == <<j, 8, 8>> IN
  /\ Insert(Insert(L, e, TRUE), e, TRUE) = Insert(L, e, TRUE) /\ Remove(Insert(L, e, TRUE), k) = Remove(L, k) /\ Remove(Remove(L, k), k) = Remove(L, k)
  /\ k # j => Insert(Insert(L, e, TRUE), f, TRUE) = Insert(Insert(L, f, TRUE), e, TRUE) /\ Remove(Insert(L, e, TRUE), j) = Insert(Remove(L, j), e, TRUE)
  /\ IsMap(Insert(L, e, TRUE)) /\ Cardinality(Insert(L, e, TRUE)) = Cardinality(L) + (IF Has(L, k) THEN 0 ELSE 1)
  /\ InsertOk(L, k, FALSE) = ~Has(L, k)
=============================================================================
