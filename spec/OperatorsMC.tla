---------------------------- MODULE OperatorsMC ----------------------------
(* Every operator value under any number of flips; the mirror law as an invariant. *)
EXTENDS Operators, TLC
VARIABLE op
Codes(k) == IF k = "mj" THEN 0..4 ELSE IF k = "sj" THEN {0, 1, 2, 4} ELSE 0..2
Kinds == {"mj", "sj", "tt", "mt", "um", "st", "us"}
Init == \E k \in Kinds, c \in -1..4, a \in -1..4 :
          /\ (c = -1) # (a = -1) /\ c \in Codes(k) \cup {-1} /\ a \in Codes(k) \cup {-1}
          /\ op = [kind |-> k, cst |-> c, ans |-> a, fl |-> FALSE]
Next == op' = Flip(op)
Spec == Init /\ [][Next]_op
Args(k) == IF k \in {"sj", "st", "us"} THEN {<<a, b>> : a, b \in 0..2} ELSE {<<a, b + 3, c, d + 3>> : a, b, c, d \in 0..2}
MirrorR(k, r) == [r EXCEPT !.got[1] = Mirror(k, r.got[1])]
MirrorLaw == \A a \in Args(op.kind) : Call(Flip(op), Swap(a)) = MirrorR(op.kind, Call(op, a))
Involution == Flip(Flip(op)) = op /\ \A a \in Args(op.kind) : Call(FlipN(op, 2), a) = Call(op, a) /\ Call(FlipN(op, 3), a) = Call(Flip(op), a)
=============================================================================
