------------------------------ MODULE Operators ------------------------------
(***************************************************************************)
(* Operator values.  op = [kind, cst, ans, fl]: a constant answer cst, or  *)
(* (cst = -1) a function that answers code ans; fl: has been flipped an odd*)
(* number of times.  Kinds "mj" and "sj" are symmetric pair operators with *)
(* answers 0 either 1 left 2 right 3 rewritten 4 removed; the others have  *)
(* one answer that speaks about one side only, which flipping preserves.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Joint(k) == k \in {"mj", "sj"}
Mirror(k, c) == IF Joint(k) THEN (CASE c = 1 -> 2 [] c = 2 -> 1 [] OTHER -> c) ELSE c
Swap(a) == LET h == Len(a) \div 2 IN IF Len(a) < 2 THEN a ELSE SubSeq(a, h + 1, Len(a)) \o SubSeq(a, 1, h)
Flip(op) == [op EXCEPT !.fl = ~op.fl, !.cst = Mirror(op.kind, op.cst)]
RECURSIVE FlipN(_, _)
FlipN(op, n) == IF n = 0 THEN op ELSE FlipN(Flip(op), n - 1)
(* the value a rewriting answer carries identifies the arguments the function saw *)
RECURSIVE Num(_)
Num(a) == IF a = <<>> THEN 0 ELSE 10 * Num(SubSeq(a, 1, Len(a) - 1)) + a[Len(a)]
Rewrites(k, c) == c = (IF Joint(k) THEN 3 ELSE 1)
ConstRed == 7777
(* <<code, value or -1, reduction>> and the arguments seen by the function *)
Call(op, args) ==
  IF op.cst >= 0 THEN [got |-> <<op.cst, -1, ConstRed>>, seen |-> <<>>]
  ELSE LET s == IF op.fl THEN Swap(args) ELSE args
           c == IF op.fl THEN Mirror(op.kind, op.ans) ELSE op.ans
           x == Num(s)
       IN [got |-> <<c, IF Rewrites(op.kind, c) THEN x + (IF op.kind = "um" THEN 1 ELSE 0) ELSE -1, x + 100000>>, seen |-> s]
=============================================================================
