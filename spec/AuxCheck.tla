------------------------------ MODULE AuxCheck ------------------------------
(* Validates recorded calls of the word traits and of operator values. *)
EXTENDS BitWords, Operators, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE i
S(s) == {s[j] : j \in DOMAIN s}
C(cond, name) == IF cond THEN {} ELSE {name}
All(ev, P(_)) == \A j \in DOMAIN ev.bs : P(j)
WordBad(ev) ==
  LET a == S(ev.a) IN
  UNION {LET b == S(ev.bs[j]) IN
         C(ev.con[j] = Contains(a, b), "contains") \cup C(ev.idx[j] = Index(a, b), "index") \cup C(S(ev.ins[j]) = BInsert(a, b), "insert")
         \cup C(S(ev.rem[j]) = BRemove(a, b), "remove") \cup C(S(ev.mrg[j]) = Merge(a, b), "merge") : j \in DOMAIN ev.bs}
  \cup C(ev.cnt = Cardinality(a), "count")
CallBad(ev) ==
  LET op == FlipN([kind |-> ev.kind, cst |-> ev.cst, ans |-> ev.ans, fl |-> ev.init = 1], ev.flips)
      want == Call(op, ev.args)
  IN C(ev.got = want.got, "answer") \cup C(ev.seen = want.seen, "seen")
Bad(ev) ==
  IF "e" \in DOMAIN ev THEN {ev.op \o ".panic"}
  ELSE CASE ev.op = "word" -> WordBad(ev)
    [] ev.op = "consts" -> C(ev.log = LogB(ev.bits), "log_b") \cup C(ev.max = ev.bits, "max_ones")
    [] ev.op = "mask" -> C(S(ev.got) = MaskLogB(ev.bits), "mask_log_b")
    [] ev.op = "nth" -> C(S(ev.res) = Nth(ev.bits, ev.n), "nth_bit")
    [] ev.op = "asu" -> C(ev.got = ev.v, "as_usize")
    [] ev.op = "call" -> CallBad(ev)
Init == i = 0
Next == /\ i < N /\ i' = i + 1
        /\ \E b \in {Bad(Trace[i + 1])} : IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i + 1) \o " " \o ToString(b))
Spec == Init /\ [][Next]_i
Consumed == TLCGet("stats").distinct = N + 1
=============================================================================
