---------------------------- MODULE HashTrieMap ----------------------------
(***************************************************************************)
(* The library as its users see it: handles (registers) that hold maps and *)
(* sets, every public operation as an action.  What an operation returns   *)
(* comes from MapSemantics; the listed properties are stated here a second *)
(* time, per key and in the words of properties.jsonl, and checked on      *)
(* every transition (HashTrieMapMC.cfg).  The same actions, with random    *)
(* choices, produce the histories that are replayed on the real code       *)
(* (HashTrieMapSim.tla).                                                   *)
(***************************************************************************)
EXTENDS MapSemantics

CONSTANTS Keys,   \* ids
          Use,    \* registers in use, of 0..19: 0-5 map A, 6-8 map B, 9-11 map C, 12-16 set A, 17-19 set B
          Acts    \* the operations explored
VARIABLES reg, cls, ctr, call, hist
vars == <<reg, cls, ctr, call, hist>>

None == {<<-1, -1, -1>>}
Ty(r) == IF r < 6 THEN "A" ELSE IF r < 9 THEN "B" ELSE IF r < 12 THEN "C" ELSE IF r < 17 THEN "SA" ELSE "SB"
IsSet(r) == r >= 12
Live == {r \in Use : reg[r] # None}
Of(t) == {r \in Use : Ty(r) = t}
N == Cardinality(Keys)

(* choices: everything when model checking (simulation: HashTrieMapSim replaces these by random ones) *)
Some(S) == S
(* numbers for new tags and values *)
Fresh == {0, 1}
Base == 0

CodesOf(role, set) == IF role = "j" THEN (IF set THEN {0, 1, 2, 4} ELSE 0..4) ELSE IF role = "f" THEN (IF set THEN {0, 2} ELSE 0..2) ELSE {0, 2}
CstOf(role) == IF role = "j" THEN {0, 1, 2, 4} ELSE IF role = "f" THEN {0, 2} ELSE {2}
Tables(role, set) == [1..N -> CodesOf(role, set)]
(* an operator: a table of answers, or a constant *)
OpsOf(role, set, base) ==
  {[cst |-> -1, table |-> t, base |-> base] : t \in Tables(role, set)} \cup {[cst |-> c, table |-> <<>>, base |-> base] : c \in Some(CstOf(role))}

Kinds == {"ff", "fm", "ftr", "mf", "mtr", "mm"} \cap Acts
Types(kind) ==
  CASE kind = "ff" -> {<<"A", "A", "A">>, <<"SA", "SA", "SA">>} [] kind = "fm" -> {<<"A", "B", "A">>, <<"SA", "SB", "SA">>}
    [] kind = "ftr" -> {<<"A", "C", "A">>} [] kind = "mf" -> {<<"A", "B", "B">>, <<"SA", "SB", "SB">>}
    [] kind = "mtr" -> {<<"A", "C", "C">>} [] kind = "mm" -> {<<"A", "B", "C">>, <<"SA", "SB", "SA">>}
TmTypes == {<<"A", "B">>, <<"B", "A">>, <<"B", "C">>, <<"SA", "SB">>, <<"SB", "SA">>}

Init == /\ reg = [r \in Use |-> None] /\ cls = [r \in Use |-> -r - 1] /\ ctr = 0
        /\ call = [op |-> "none"] /\ hist = <<>>

(* one call: register d gets map m of identity class c (d = -1: nothing is stored); text is the command to replay *)
Do(d, m, c, k, text) ==
  /\ reg' = IF d < 0 THEN reg ELSE [reg EXCEPT ![d] = m]
  /\ cls' = IF d < 0 THEN cls ELSE [cls EXCEPT ![d] = c]
  /\ ctr' = ctr + 1
  /\ call' = k
  /\ hist' = Append(hist, text)

New == \E d \in Some(Use) : Do(d, {}, ctr, [op |-> "new", d |-> d], <<"new", d>>)
Clone == \E s \in Some(Live) : \E d \in Some(Of(Ty(s)) \ {s}) : Do(d, reg[s], cls[s], [op |-> "clone", s |-> s, d |-> d], <<"clone", s, d>>)
Drop == \E s \in Some(Live) : Do(s, None, -s - 1, [op |-> "drop", s |-> s, d |-> s], <<"drop", s>>)
Ins == \E s \in Some(Live) : \E d \in Some(Of(Ty(s))), k \in Some(Keys), rep \in Some(BOOLEAN), x \in Fresh :
  LET e == <<k, x, IF IsSet(s) THEN 0 ELSE x>> m == reg[s]
      old == {y \in m : y[1] = k} ok == InsertOk(m, k, rep) IN
  Do(IF ok THEN d ELSE -1, Insert(m, e, rep), ctr,
     [op |-> "insert", s |-> s, d |-> IF ok THEN d ELSE -1, e |-> e, rep |-> rep, res |-> IF ok THEN "ok" ELSE "found", old |-> old],
     <<"ins", s, d, k, IF rep THEN 1 ELSE 0>>)
Rem == \E s \in Some(Live) : \E d \in Some(Of(Ty(s))), k \in Some(Keys) :
  LET m == reg[s] ok == Has(m, k) IN
  Do(IF ok THEN d ELSE -1, Remove(m, k), ctr,
     [op |-> "remove", s |-> s, d |-> IF ok THEN d ELSE -1, k |-> k, res |-> IF ok THEN "ok" ELSE "nf", old |-> {e \in m : e[1] = k}],
     <<"rem", s, d, k>>)
Look == \E s \in Some(Live) : \E k \in Some(Keys) :
  Do(-1, {}, 0, [op |-> "find", s |-> s, d |-> -1, k |-> k, old |-> IF Has(reg[s], k) THEN {At(reg[s], k)} ELSE {}], <<"find", s, k>>)
Tr == \E s \in Some(Live) : \E d \in Some(Of(Ty(s))), op \in OpsOf("f", IsSet(s), Base) :
  LET m == reg[s] x == UnaryResult("f", m, op, IsSet(s)) un == m # {} /\ AllUnchanged(m, op, IsSet(s)) IN
  Do(d, x, IF un THEN cls[s] ELSE ctr, [op |-> "transform", role |-> "f", s |-> s, d |-> d, f |-> op, calls |-> UnaryCalls(m, op), red |-> UnaryReduction(m, op)],
     <<"tr", s, d, op.cst, op.table>>)
Tm == \E s \in Some(Live) : \E t \in Some({y \in TmTypes : y[1] = Ty(s)}) : \E d \in Some(Of(t[2])), op \in OpsOf("m", IsSet(s), Base) :
  LET m == reg[s] IN
  Do(d, UnaryResult("m", m, op, IsSet(s)), ctr, [op |-> "transmute", role |-> "m", s |-> s, d |-> d, f |-> op, calls |-> UnaryCalls(m, op), red |-> UnaryReduction(m, op)],
     <<"tm", s, d, op.cst, op.table>>)
Joint == \E kind \in Some(Kinds) : \E t \in Some(Types(kind)) : \E s \in Some(Of(t[1]) \cap Live), r \in Some(Of(t[2]) \cap Live), d \in Some(Of(t[3])) :
  LET ro == Roles(kind) set == IsSet(s) A == reg[s] B == reg[r] IN
  \E b \in OpsOf(ro.b, set, Base), l \in OpsOf(ro.l, set, Base), q \in OpsOf(ro.r, set, Base) :
    LET op == [b |-> b, l |-> l, r |-> q] al == JointAllowed(kind, A, B, op, set) IN
    \E x \in Some({y \in SUBSET al : IsMap(y) /\ Ids(y) = Ids(al)}) :
      Do(d, x, ctr, [op |-> "joint", kind |-> kind, s |-> s, r |-> r, d |-> d, o |-> op,
                     cb |-> JointCallsB(A, B, op), cl |-> JointCallsL(A, B, op), cr |-> JointCallsR(A, B, op), red |-> JointReduction(A, B, op)],
         <<kind, s, r, d, b.cst, l.cst, q.cst, b.table, l.table, q.table>>)
Next ==
  \/ New
  \/ ("clone" \in Acts /\ Clone)
  \/ ("drop" \in Acts /\ Drop)
  \/ ("ins" \in Acts /\ Ins)
  \/ ("rem" \in Acts /\ Rem)
  \/ ("find" \in Acts /\ Look)
  \/ ("tr" \in Acts /\ Tr)
  \/ ("tm" \in Acts /\ Tm)
  \/ Joint
Spec == Init /\ [][Next]_vars
View == <<reg, {<<a, b>> \in Use \X Use : cls[a] = cls[b]}>>

(***************************************************************************)
(* The properties, per key.                                                *)
(***************************************************************************)
TypeOK == \A r \in Live : IsMap(reg[r]) /\ Ids(reg[r]) \subseteq Keys /\ (IsSet(r) => \A e \in reg[r] : e[3] = 0)
(* C17: handles of one class have the same entries *)
Identity == \A a, b \in Live : cls[a] = cls[b] => reg[a] = reg[b]
(* C05: only the destination of a call changes *)
Persistence == [][\A r \in Use : r # call'.d => reg'[r] = reg[r] /\ cls'[r] = cls[r]]_vars
(* C01, C02 *)
InsertLaw == [][call'.op = "insert" =>
  LET m == reg[call'.s] k == call'.e[1] new == IF call'.d < 0 THEN {} ELSE reg'[call'.d] IN
  IF \A e \in m : e[1] # k THEN call'.res = "ok" /\ call'.old = {} /\ new = m \cup {call'.e}
  ELSE IF ~call'.rep THEN call'.res = "found" /\ call'.old = {CHOOSE e \in m : e[1] = k} /\ call'.d = -1
  ELSE call'.res = "ok" /\ call'.old = {CHOOSE e \in m : e[1] = k} /\ call'.e \in new /\ Cardinality(new) = Cardinality(m)
       /\ \A e \in m : e[1] # k => e \in new]_vars
(* C03 *)
RemoveLaw == [][call'.op = "remove" =>
  LET m == reg[call'.s] k == call'.k IN
  IF \E e \in m : e[1] = k THEN call'.res = "ok" /\ call'.old \subseteq m /\ reg'[call'.d] \cup call'.old = m /\ Cardinality(call'.old) = 1 /\ \A e \in call'.old : e[1] = k
  ELSE call'.res = "nf" /\ call'.d = -1 /\ call'.old = {}]_vars
(* the answer an operator gives for a key *)
AnsOf(role, op, k, set) == Ans(role, op.cst, op.table, k, set)
Entry(m, k) == {e \in m : e[1] = k}
(* C07, C08, C13 *)
UnaryLaw == [][call'.op \in {"transform", "transmute"} =>
  LET m == reg[call'.s] x == reg'[call'.d] set == IsSet(call'.s) IN
  /\ \A k \in Keys :
       LET e == Entry(m, k) a == AnsOf(call'.role, call'.f, k, set) n == call'.f.base + k v == IF set THEN 0 ELSE n IN
       Entry(x, k) = IF e = {} THEN {}
                     ELSE IF call'.role = "f" THEN (IF a = 0 THEN e ELSE IF a = 1 THEN {<<k, (CHOOSE y \in e : TRUE)[2], n>>} ELSE {})
                     ELSE IF a = 1 THEN {<<k, n, v>>} ELSE {}
  /\ call'.calls = (IF call'.f.cst >= 0 THEN {} ELSE m)
  /\ Cardinality(call'.red) = Cardinality(call'.calls)]_vars
Seq6(A, B) == {p \o q : p \in A, q \in B}
(* C09-C13 *)
JointLaw == [][call'.op = "joint" =>
  LET A == reg[call'.s] B == reg[call'.r] x == reg'[call'.d] set == IsSet(call'.s) ro == Roles(call'.kind) o == call'.o IN
  /\ \A k \in Keys :
       LET a == Entry(A, k) b == Entry(B, k) y == Entry(x, k)
           one(role, op, e) == LET c == AnsOf(role, op, k, set) n == op.base + k IN
             IF role = "f" THEN (IF c = 0 THEN y = e ELSE IF c = 1 THEN \E z \in e : y = {<<k, z[2], n>>} ELSE y = {})
             ELSE IF c = 2 THEN y = {} ELSE \E z \in e : y = {<<k, IF role = "t" THEN z[2] ELSE n, IF set THEN 0 ELSE n>>}
       IN IF a = {} /\ b = {} THEN y = {}
          ELSE IF b = {} THEN one(ro.l, o.l, a)
          ELSE IF a = {} THEN one(ro.r, o.r, b)
          ELSE IF ro.b # "j" THEN one(ro.b, o.b, IF ro.side = "l" THEN a ELSE b)
          ELSE LET c == AnsOf("j", o.b, k, set) IN
               CASE c = 0 -> y = a \/ y = b [] c = 1 -> y = a [] c = 2 -> y = b
                 [] c = 3 -> \E z \in a \cup b : y = {<<k, z[2], o.b.base + k>>} [] OTHER -> y = {}
  /\ call'.cb = {p \o q : p \in IF o.b.cst < 0 THEN A ELSE {}, q \in B} \cap {c \in Seq6(A, B) : c[1] = c[4]}
  /\ call'.cl = (IF o.l.cst < 0 THEN {e \in A : Entry(B, e[1]) = {}} ELSE {})
  /\ call'.cr = (IF o.r.cst < 0 THEN {e \in B : Entry(A, e[1]) = {}} ELSE {})
  /\ Cardinality(call'.red) = Cardinality(call'.cb) + Cardinality(call'.cl) + Cardinality(call'.cr)]_vars
=============================================================================
