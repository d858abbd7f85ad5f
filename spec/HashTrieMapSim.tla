--------------------------- MODULE HashTrieMapSim ---------------------------
(***************************************************************************)
(* Random histories of HashTrieMap: every successor is one random choice,  *)
(* the operations occur with the given weights; a finished history is      *)
(* printed (lib/specgen.py turns it into commands for the real code).      *)
(***************************************************************************)
EXTENDS HashTrieMap, TLC, Json

CONSTANTS Depth, WIns, WRem, WTr, WTm, WJoint, WClone
RandomOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
FreshNumber == {ctr}
BaseNumber == ctr
(* an answer table: uniform, one answer with exceptions, or one answer *)
RandomTable(role, set) ==
  LET codes == CodesOf(role, set) c == RandomElement(codes) x == RandomElement(1..4) IN
  {TLCEval([i \in 1..N |-> IF x = 1 \/ (x = 2 /\ RandomElement(1..4) > 1) THEN c ELSE RandomElement(codes)])}

SimNext == \/ New \/ Drop \/ Look \/ (\E j \in 1..WClone : Clone) \/ (\E j \in 1..WIns : Ins) \/ (\E j \in 1..WRem : Rem)
           \/ (\E j \in 1..WTr : Tr) \/ (\E j \in 1..WTm : Tm) \/ (\E j \in 1..WJoint : Joint)
SimInit == /\ reg = [r \in Use |-> IF r \in {0, 6, 9, 12, 17} THEN {} ELSE None] /\ cls = [r \in Use |-> -r - 1] /\ ctr = 0
           /\ call = [op |-> "none"] /\ hist = <<>>
SimSpec == SimInit /\ [][SimNext]_vars
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
