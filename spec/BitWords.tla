------------------------------ MODULE BitWords ------------------------------
(***************************************************************************)
(* A word of W bits is a set of positions, a subset of 0..W-1.  The word   *)
(* traits are operations on such sets; each returns a value or one of the  *)
(* documented errors.                                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
ECount == -1  ENotFound == -2  EFound == -3  ERange == -4

One(b) == Cardinality(b) = 1
Contains(a, b) == IF ~One(b) THEN ECount ELSE IF b \subseteq a THEN 1 ELSE 0
Index(a, b) == IF ~One(b) THEN ECount ELSE IF ~(b \subseteq a) THEN ENotFound
               ELSE LET p == CHOOSE x \in b : TRUE IN Cardinality({x \in a : x < p})
(* word-valued operations answer <<error>> or the new set *)
Err(e) == {e}
BInsert(a, b) == IF ~One(b) THEN Err(ECount) ELSE IF b \subseteq a THEN Err(EFound) ELSE a \cup b
BRemove(a, b) == IF ~One(b) THEN Err(ECount) ELSE IF ~(b \subseteq a) THEN Err(ENotFound) ELSE a \ b
Merge(a, b) == IF a \cap b # {} THEN Err(EFound) ELSE a \cup b
Nth(w, n) == IF n >= w THEN Err(ERange) ELSE {n}
IsErr(s) == \E x \in s : x < 0
LogB(w) == CHOOSE l \in 0..20 : 2^l = w
MaskLogB(w) == 0..(LogB(w) - 1)
=============================================================================
