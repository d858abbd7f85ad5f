----------------------------- MODULE BitWordsMC -----------------------------
(* The word as a state machine: every transition of a W-bit word, and the laws *)
(* the trie relies on.  W = 6 covers every relation of two sets of positions.  *)
EXTENDS BitWords, TLC
CONSTANT W
Words == SUBSET (0..(W - 1))
VARIABLES word, last
Init == word = {} /\ last = <<"new", {}, {}>>
Step(op, b, res) == /\ word' = (IF IsErr(res) THEN word ELSE res)
                    /\ last' = <<op, b, res>>
Next == \E b \in Words : \/ Step("insert", b, BInsert(word, b)) \/ Step("remove", b, BRemove(word, b)) \/ Step("merge", b, Merge(word, b))
Spec == Init /\ [][Next]_<<word, last>>

TypeOK == word \in Words
(* slot numbers of the present bits are exactly 0..count-1, in order of position *)
RankBijection == LET r(p) == Index(word, {p}) IN
  /\ {r(p) : p \in word} = 0..(Cardinality(word) - 1)
  /\ \A p, q \in word : p < q => r(p) < r(q)
(* inserting shifts exactly the later slots by one, removing undoes inserting *)
InsertShifts == \A p \in (0..(W - 1)) \ word : LET n == BInsert(word, {p}) IN
  /\ \A q \in word : Index(n, {q}) = Index(word, {q}) + (IF p < q THEN 1 ELSE 0)
  /\ BRemove(n, {p}) = word
  /\ Contains(n, {p}) = 1 /\ Contains(word, {p}) = 0
MergeIsUnion == \A b \in Words : IF b \cap word = {} THEN Merge(word, b) = Merge(b, word) /\ Cardinality(Merge(word, b)) = Cardinality(word) + Cardinality(b)
                                 ELSE IsErr(Merge(word, b))
Documented == \A b \in Words : /\ (IsErr(BInsert(word, b)) <=> (~One(b) \/ b \subseteq word))
                               /\ (IsErr(BRemove(word, b)) <=> (~One(b) \/ ~(b \subseteq word)))
                               /\ (Index(word, b) < 0 <=> (~One(b) \/ ~(b \subseteq word))) /\ (Contains(word, b) < 0 <=> ~One(b))
View == word
=============================================================================
