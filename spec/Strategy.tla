------------------------------ MODULE Strategy ------------------------------
(***************************************************************************)
(* Evaluating a branch: the children are evaluated in any order, possibly  *)
(* at the same time, and the partial results are put together in any       *)
(* grouping, starting from the identity as often as the scheduler likes    *)
(* (C13, C14).  Leaves hold 1..MaxChain entries; Ordered forces left-to-right. *)
(* A segment is [lo, hi, red, out, run]: which leaves it covers, the       *)
(* secondary results combined so far, the entries kept.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Leaves, MaxChain, Ordered, NoIdentity
VARIABLES size,  \* leaf -> number of entries
          todo,  \* leaf -> entries not yet given to the callback
          calls, \* bag of calls: entry -> number of times
          segs   \* finished partial results
vars == <<size, todo, calls, segs>>
L == 1..Leaves
E(l, j) == l * 10 + j
AllE == {E(l, j) : l \in L, j \in 1..MaxChain}
Mine(s) == UNION {{E(l, j) : j \in 1..s[l]} : l \in L}
Ans(e) == e % 3          \* 0 unchanged 1 rewritten 2 removed
Secondary(e) == e + 100
Default == [x \in {e + 100 : e \in AllE} |-> 0]
Plus(a, b) == [x \in DOMAIN a |-> a[x] + b[x]]
One(e) == [Default EXCEPT ![Secondary(e)] = 1]
Kept(e) == IF Ans(e) = 0 THEN {e} ELSE IF Ans(e) = 1 THEN {e + 1000} ELSE {}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN Default ELSE LET e == CHOOSE x \in S : TRUE IN Plus(One(e), Sum(S \ {e}))

Init == /\ size \in [L -> 1..MaxChain] /\ todo = size /\ calls = [e \in AllE |-> 0]
        /\ segs = {}
(* one call of the callback, for the last entry of a chain that is left *)
Call(l) ==
  /\ todo[l] > 0
  /\ Ordered => \A k \in L : k < l => todo[k] = 0
  /\ todo' = [todo EXCEPT ![l] = @ - 1]
  /\ calls' = [calls EXCEPT ![E(l, todo[l])] = @ + 1]
  /\ UNCHANGED <<size, segs>>
(* a leaf is finished *)
Leaf(l) ==
  /\ todo[l] = 0 /\ \A s \in segs : ~(s.lo <= l /\ l <= s.hi)
  /\ segs' = segs \cup {[lo |-> l, hi |-> l, red |-> Sum({E(l, j) : j \in 1..size[l]}), out |-> UNION {Kept(E(l, j)) : j \in 1..size[l]}]}
  /\ UNCHANGED <<size, todo, calls>>
(* two neighbours are put together, or one with the identity *)
Merge(a, b) ==
  /\ a.hi + 1 = b.lo /\ segs' = (segs \ {a, b}) \cup {[lo |-> a.lo, hi |-> b.hi, red |-> Plus(a.red, b.red), out |-> a.out \cup b.out]}
  /\ UNCHANGED <<size, todo, calls>>
WithIdentity(a) ==
  /\ ~NoIdentity /\ segs' = (segs \ {a}) \cup {[a EXCEPT !.red = Plus(Default, @)]} /\ UNCHANGED <<size, todo, calls>>
Next == \/ \E l \in L : Call(l) \/ Leaf(l)
        \/ \E a, b \in segs : Merge(a, b)
        \/ \E a \in segs : WithIdentity(a)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E l \in L : Call(l) \/ Leaf(l)) /\ WF_vars(\E a, b \in segs : Merge(a, b))
Done == segs # {} /\ \A s \in segs : s.lo = 1 /\ s.hi = Leaves
(* whatever the schedule: every entry called once, nothing missing from the reduction, the same entries *)
Once == \A e \in AllE : calls[e] <= 1 /\ (e \notin Mine(size) => calls[e] = 0)
Same == Done => \A s \in segs : s.red = Sum(Mine(size)) /\ s.out = UNION {Kept(e) : e \in Mine(size)} /\ \A e \in Mine(size) : calls[e] = 1
Ends == <>Done
=============================================================================
