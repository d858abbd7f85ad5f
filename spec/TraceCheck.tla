----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Validates recorded histories of the real library against MapSemantics.  *)
(* One event per public call: arguments, outcome, callback calls, reduction*)
(* and the contents observed through visit, size and find.  Every event    *)
(* yields the set of violated clauses; the check of a property fails iff a *)
(* clause it owns was violated.  A file holds many histories; each "init"  *)
(* event starts one.                                                       *)
(***************************************************************************)
EXTENDS MapSemantics, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Regs == 0..19
None == {<<-1, -1, -1>>}

VARIABLES i,     \* events consumed
          st,    \* register -> map, or None
          ins,   \* register -> set of <<id, key instance, value instance>> (instrumented histories)
          cl,    \* register -> identity class: registers in one class must compare equal
          em,    \* what the last equality matrix said, for registers not written since
          ob,    \* register -> size and lookups as last observed when it was written
          mk,    \* register -> the transform, transmute or joint operation that made it, or ""
          h,     \* history header: n, hc (hash class per id), faulty, skip
          nbad   \* number of events with violated clauses
vars == <<i, st, ins, cl, em, ob, mk, h, nbad>>

F(ev, f, d) == IF f \in DOMAIN ev THEN ev[f] ELSE d
HasF(ev, f) == f \in DOMAIN ev
T3(e) == <<e[1], e[2], e[3]>>
Maps3(s) == {T3(s[j]) : j \in DOMAIN s}
Inst(s) == {<<s[j][1], s[j][4], s[j][5]>> : j \in {x \in DOMAIN s : Len(s[x]) = 5}}
Probed(ev, n) == IF HasF(ev, "prb") THEN Range(ev.prb) ELSE 0..(n - 1)

(***************************************************************************)
(* Contents observed on a handle against the set `al` of allowed entries   *)
(* (singletons per id unless the operation leaves a choice).               *)
(***************************************************************************)
VisBad(ev, al) == ev.o = 1 /\ LET v == Maps3(ev.vis) IN ~(Len(ev.vis) = Cardinality(Ids(al)) /\ v \subseteq al /\ Ids(v) = Ids(al))
SzBad(ev, al) == ev.sz # Cardinality(Ids(al))
PrbBad(ev, al, n) == LET p == Probed(ev, n) f == Range(ev.fnd) IN
                     ~(f \subseteq al /\ Ids(f) = Ids(al) \cap p /\ Len(ev.fnd) = Cardinality(f))
ObsBad(nm, ev, al, n) == (IF VisBad(ev, al) THEN {nm \o ".vis"} ELSE {}) \cup (IF SzBad(ev, al) THEN {nm \o ".sz"} ELSE {})
                         \cup (IF PrbBad(ev, al, n) THEN {nm \o ".prb"} ELSE {})
(* what to continue from: what was seen if it is a map, else what was expected *)
Seen(ev, exp) == IF ev.o = 1 /\ IsMap(Maps3(ev.vis)) THEN Maps3(ev.vis) ELSE exp
(* the observations contradict each other: nothing later in this history can be judged *)
Broken(ev, n) == ev.o = 1 /\ LET v == Maps3(ev.vis) p == Probed(ev, n) IN
                   ~(Range(ev.fnd) = {e \in v : e[1] \in p} /\ IsMap(v) /\ ev.sz = Cardinality(v))

C(cond, name) == IF cond THEN {} ELSE {name}
HC(id) == IF id + 1 \in DOMAIN h.hc THEN h.hc[id + 1] ELSE -1
HashPeers(m, id) == \E e \in m : e[1] # id /\ HC(e[1]) = HC(id)

(* clones made during a call: key ids `ck`, values `cv`, only those with Ok(id) *)
CloneBad(nm, ev, m, OkIds) ==
  IF ~HasF(ev, "ck") THEN {} ELSE
  C(/\ Range(ev.ck) \subseteq OkIds.k
    /\ \A v \in Range(ev.cv) : \E e \in m : e[3] = v /\ e[1] \in OkIds.v, "clones." \o nm)
(* entries that must be the same instances before and after *)
InstBad(nm, old, new, keep) == C(\A t \in old : t[1] \in keep => t \in new, "inst." \o nm)
ObsClones(ev) == IF HasF(ev, "oc") THEN C(ev.oc = 0, "clones.obs") ELSE {}

(* the result of an operation is a map like any other: what then goes wrong on it is also that operation's doing *)
Makers == {"transform", "transmute", "ff", "fm", "ftr", "mf", "mtr", "mm"}
Later(ev, bad) == IF bad # {} /\ ev.op \in {"insert", "remove", "find"} /\ HasF(ev, "s") /\ mk[ev.s] # "" THEN {mk[ev.s] \o ".later"} ELSE {}

R(b, d, m, t, c, brk) == [bad |-> b, d |-> d, m |-> m, t |-> t, c |-> c, brk |-> brk]
Keep(b) == R(b, -1, {}, {}, 0, FALSE)
Halt(b) == R(b, -1, {}, {}, 0, TRUE)

Fail(ev, nm) ==
  CASE ev.e = "inj"    -> Keep({})
    [] ev.e = "opanic" -> Halt({nm \o ".obs.panic"})
    [] ev.e = "panic"  -> Halt({nm \o ".panic"})
    [] ev.e = "hang"   -> Halt({nm \o ".hang"})
    [] OTHER           -> Halt({nm \o ".crash"})

StepInsert(ev) ==
  LET m == st[ev.s] k == ev.k id == k[1] rep == ev.rep = 1
      nm == IF ev.het = 1 THEN "insert.het" ELSE "insert"
      old == IF Has(m, id) THEN <<At(m, id)>> ELSE <<>>
      peers == {x \in 0..(h.n - 1) : HC(x) = HC(id)}
      cb == CloneBad("insert", ev, m \cup {k}, [k |-> peers, v |-> peers])
  IN IF ~InsertOk(m, id, rep) THEN
       LET b == C(ev.res = "found" /\ ev.found = old, nm \o ".res") \cup cb
       IN IF ev.res = "found" THEN Keep(b) ELSE R(b, ev.d, Seen(ev, m), Inst(ev.vis), i, Broken(ev, h.n))
     ELSE IF ev.res # "ok" THEN Keep({nm \o ".res"} \cup cb)
     ELSE LET x == Insert(m, k, rep)
              b == C(ev.prev = old, nm \o ".res") \cup C(ev.ptr = <<k>>, nm \o ".ptr") \cup ObsBad(nm, ev, x, h.n) \cup cb \cup ObsClones(ev)
                   \cup (IF HasF(ev, "ck") /\ ev.o = 1 THEN InstBad("insert", ins[ev.s], Inst(ev.vis), Ids(m) \ peers) ELSE {})
          IN R(b, ev.d, Seen(ev, x), Inst(ev.vis), i, Broken(ev, h.n))

(* inserting (replacing, tag = value = base + id) or removing the ids a..b-1 one by one *)
StepBulk(ev) ==
  LET m == st[ev.s] rem == ev.op = "bulkrem" nm == IF rem THEN "remove" ELSE "insert"
      hit == {e \in m : ev.a <= e[1] /\ e[1] < ev.b}
      x == (m \ hit) \cup (IF rem THEN {} ELSE {<<id, ev.base + id, IF ev.set = 1 THEN 0 ELSE ev.base + id>> : id \in ev.a..(ev.b - 1)})
      b == C(ev.prev = Cardinality(hit) /\ ev.done = (IF rem THEN Cardinality(hit) ELSE ev.b - ev.a), nm \o ".res") \cup ObsBad(nm, ev, x, h.n)
  IN R(b, ev.d, Seen(ev, x), Inst(ev.vis), i, Broken(ev, h.n))

StepRemove(ev) ==
  LET m == st[ev.s] id == ev.k nm == IF ev.het = 1 THEN "remove.het" ELSE "remove"
      peers == {x \in 0..(h.n - 1) : HC(x) = HC(id)}
      cb == CloneBad("remove", ev, m, [k |-> peers, v |-> peers])
  IN IF ~Has(m, id) THEN
       LET b == C(ev.res = "nf", nm \o ".res") \cup cb
       IN IF ev.res = "nf" THEN Keep(b) ELSE R(b, ev.d, Seen(ev, m), Inst(ev.vis), i, Broken(ev, h.n))
     ELSE IF ev.res # "ok" THEN Keep({nm \o ".res"} \cup cb)
     ELSE LET x == Remove(m, id)
              b == C(ev.rem = <<At(m, id)>>, nm \o ".res") \cup ObsBad(nm, ev, x, h.n) \cup cb \cup ObsClones(ev)
                   \cup (IF HasF(ev, "ck") /\ ev.o = 1 THEN InstBad("remove", ins[ev.s], Inst(ev.vis), Ids(m) \ peers) ELSE {})
          IN R(b, ev.d, Seen(ev, x), Inst(ev.vis), i, Broken(ev, h.n))

StepUnary(ev) ==
  LET m == st[ev.s] set == ev.set = 1 role == IF ev.op = "transform" THEN "f" ELSE "m"
      op == [cst |-> ev.cl, table |-> ev.tl, base |-> ev.bl]
      x == UnaryResult(role, m, op, set)
      un == role = "f" /\ AllUnchanged(m, op, set)
      peers == {e[1] : e \in {y \in m : HashPeers(m, y[1])}}
      b == ObsBad(ev.op, ev, x, h.n)
           \cup C(Lists(ev.xl, UnaryCalls(m, op)) /\ ev.xb = <<>> /\ ev.xr = <<>>, ev.op \o ".calls")
           \cup C(Lists(ev.red, UnaryReduction(m, op)), ev.op \o ".red")
           \cup (IF HasF(ev, "eq") THEN C((un /\ m # {}) => ev.eq = 1, "eq.unchanged") \cup C(ev.eq = 1 => x = m, "eq.sound") ELSE {})
           \cup ObsClones(ev)
           \cup (IF role = "f" /\ HasF(ev, "ck") THEN CloneBad("transform", ev, m, [k |-> peers \cup UnaryRewritten(m, op, set), v |-> peers]) ELSE {})
           \cup (IF role = "f" /\ HasF(ev, "ck") /\ ev.o = 1
                 THEN InstBad("transform", ins[ev.s], Inst(ev.vis), UnaryKept(m, op, set) \ peers) ELSE {})
  IN R(b, ev.d, Seen(ev, x), Inst(ev.vis), IF un /\ m # {} THEN cl[ev.s] ELSE i, Broken(ev, h.n))

(* what a joint operation takes over from either map without having to change it stays the same instance; only entries
   that share their full hash with another one, and the keys of rewritten entries, may be cloned *)
SharedBad(nm, ev, A, B, op, set) ==
  IF ~HasF(ev, "ck") THEN {} ELSE
  LET AB == A \cup B
      peers == {e[1] : e \in {y \in AB : HashPeers(AB, y[1])}}
      sh == JointShare(nm, A, B, op, set)
  IN CloneBad(nm, ev, AB, [k |-> peers \cup sh.rewritten, v |-> peers])
     \cup (IF ev.o # 1 THEN {} ELSE
           InstBad(nm, ins[ev.s], Inst(ev.vis), sh.left \ peers) \cup InstBad(nm, ins[ev.r], Inst(ev.vis), sh.right \ peers)
           \cup C(\A t \in ins[ev.s] : t[1] \in sh.either \ peers => (t \in Inst(ev.vis) \/ \E u \in ins[ev.r] : u[1] = t[1] /\ u \in Inst(ev.vis)), "inst." \o nm))

StepJoint(ev) ==
  LET A == st[ev.s] B == st[ev.r] set == ev.set = 1 nm == ev.op
      op == [b |-> [cst |-> ev.cb, table |-> ev.tb, base |-> ev.bb], l |-> [cst |-> ev.cl, table |-> ev.tl, base |-> ev.bl],
             r |-> [cst |-> ev.cr, table |-> ev.tr, base |-> ev.br]]
      al == JointAllowed(nm, A, B, op, set)
      b == ObsBad(nm, ev, al, h.n)
           \cup C(Lists(ev.xb, JointCallsB(A, B, op)) /\ Lists(ev.xl, JointCallsL(A, B, op)) /\ Lists(ev.xr, JointCallsR(A, B, op)), nm \o ".calls")
           \cup C(Lists(ev.red, JointReduction(A, B, op)), nm \o ".red")
           \cup ObsClones(ev) \cup SharedBad(nm, ev, A, B, op, set)
  IN R(b, ev.d, Seen(ev, {CHOOSE e \in al : e[1] = k : k \in Ids(al)}), Inst(ev.vis), i, Broken(ev, h.n))

(* two handles of the same type compared with == : <<a, b, answer>> for all pairs *)
StepEqm(ev) ==
  LET M == Range(ev.m)
      b == C(\A p \in M : p[3] = 1 => st[p[1]] = st[p[2]], "eq.sound")
           \cup C(\A p \in M : (p[1] = p[2] \/ cl[p[1]] = cl[p[2]]) => p[3] = 1, "eq.ident")
           \cup C(\A p \in M : <<p[2], p[1], p[3]>> \in M, "eq.sym")
           \cup C(\A p, q \in {x \in M : x[3] = 1} : p[2] = q[1] => <<p[1], q[2], 1>> \in M, "eq.trans")
           \cup C(\A p \in em : p \in M, "eq.stable")
  IN Keep(b)

(***************************************************************************)
(* Two runs of the same operation that must agree: other strategy (par),   *)
(* operator against the flipped form of its mirror image (flip),          *)
(* constant operator against function (cst), set against map (set),        *)
(* equivalent key type against own key type (het).                         *)
(***************************************************************************)
P2(s) == {<<e[1], e[2]>> : e \in s}
NoOb == [sz |-> -1, f |-> {}, p |-> {}]
Bag(s) == [x \in Range(s) |-> Cardinality({j \in DOMAIN s : s[j] = x})]
NoVal(s) == [j \in DOMAIN s |-> [k \in DOMAIN s[j] |-> IF k % 3 = 0 THEN 0 ELSE s[j][k]]]
StepCmp(ev) ==
  LET k == ev.kind set == k = "set" nm == "cmp." \o k
      both == st[ev.s] # None /\ st[ev.r] # None
      P(s) == IF set THEN NoVal(s) ELSE s
      gen(j) == ev.c1[j] = -1 /\ ev.c2[j] = -1
      eitherAns == k = "cst" /\ (ev.c1[1] = 0 \/ ev.c2[1] = 0)
      o1 == ob[ev.s] o2 == ob[ev.r] pr == o1.p \cap o2.p
      E(x) == IF set THEN P2(x) ELSE IF eitherAns THEN Ids(x) ELSE x
      found(o) == E({e \in o.f : e[1] \in pr})
      obs == IF ev.same = 1 /\ o1 # NoOb /\ o2 # NoOb THEN C(o1.sz = o2.sz /\ found(o1) = found(o2), nm \o ".entries") ELSE {}
      b == IF h.skip > 0 THEN obs ELSE obs \cup C((st[ev.s] = None) = (st[ev.r] = None), nm \o ".res")
           \cup (IF both /\ ev.same = 1 THEN C(E(st[ev.s]) = E(st[ev.r]), nm \o ".entries") ELSE {})
           \cup C(ev.q1 = ev.q2 /\ P(ev.p1) = P(ev.p2), nm \o ".res")
           \cup C(/\ (gen(1) => Bag(P(ev.b1)) = Bag(P(ev.b2)))
                  /\ (gen(2) => Bag(P(ev.l1)) = Bag(P(ev.l2)))
                  /\ (gen(3) => Bag(P(ev.r1)) = Bag(P(ev.r2))), nm \o ".calls")
           \cup C(ev.c1 = ev.c2 => Bag(ev.red1) = Bag(ev.red2), nm \o ".red")
  IN Keep(b)

StepCensus(ev) ==
  Keep(C(ev.leak = 0 /\ ev.lk = ev.rk /\ ev.lv = ev.rv, "census.leak") \cup C(ev.dead = 0, "census.dead") \cup C(ev.dd = 0, "census.double"))

Quiet(ev, nm) == IF HasF(ev, "ck") THEN C(ev.ck = <<>> /\ ev.cv = <<>>, "clones." \o nm) ELSE {}
Step(ev) ==
  (* a history whose observations contradict each other ends there; only two runs that must agree are still compared *)
  IF h.skip > 0 THEN IF ev.op = "cmp" /\ h.skip >= i - 1 THEN StepCmp(ev) ELSE Keep({})
  ELSE IF HasF(ev, "e") THEN Fail(ev, ev.op)
  ELSE CASE ev.op = "new"    -> R(ObsBad("new", ev, {}, h.n) \cup ObsClones(ev) \cup Quiet(ev, "new"), ev.d, {}, {}, i, Broken(ev, h.n))
    [] ev.op = "clone"  -> R(ObsBad("persist", ev, st[ev.s], h.n) \cup C(ev.eq = 1, "eq.ident") \cup ObsClones(ev) \cup Quiet(ev, "clone")
                               \cup (IF HasF(ev, "ck") /\ ev.o = 1 THEN InstBad("clone", ins[ev.s], Inst(ev.vis), Ids(st[ev.s])) ELSE {}),
                             ev.d, Seen(ev, st[ev.s]), Inst(ev.vis), cl[ev.s], Broken(ev, h.n))
    [] ev.op = "adopt"  -> R({}, ev.d, Maps3(ev.vis), {}, i, FALSE)
    [] ev.op = "drop"   -> R({}, ev.s, None, {}, i, FALSE)
    [] ev.op = "insert" -> StepInsert(ev)
    [] ev.op = "remove" -> StepRemove(ev)
    [] ev.op \in {"bulkins", "bulkrem"} -> StepBulk(ev)
    [] ev.op = "find"   -> Keep(C(ev.res = (IF Has(st[ev.s], ev.k) THEN <<At(st[ev.s], ev.k)>> ELSE <<>>), IF ev.het = 1 THEN "find.het.res" ELSE "find.res") \cup Quiet(ev, "find"))
    [] ev.op = "visit"  -> Keep(C(Lists([j \in DOMAIN ev.vis |-> T3(ev.vis[j])], st[ev.s]), "visit.vis") \cup Quiet(ev, "visit"))
    [] ev.op = "obs"    -> LET b == ObsBad("persist", ev, st[ev.s], h.n) \cup ObsClones(ev)
                           IN IF b = {} THEN Keep({}) ELSE R(b, ev.s, Seen(ev, st[ev.s]), Inst(ev.vis), i, Broken(ev, h.n))
    [] ev.op = "ref"    -> Keep(C(ev.now = ev.was /\ (st[ev.s] # None => ev.now = <<At(st[ev.s], ev.k)>>), "ref"))
    [] ev.op \in {"transform", "transmute"} -> StepUnary(ev)
    [] ev.op \in {"ff", "fm", "ftr", "mf", "mtr", "mm"} -> StepJoint(ev)
    [] ev.op = "eqm"    -> StepEqm(ev)
    [] ev.op = "cmp"    -> StepCmp(ev)
    [] ev.op = "census" -> StepCensus(ev)

Starts == {j \in 1..N : Trace[j].op = "init"}
Begin(j) ==
  /\ i = j
  /\ st = [r \in Regs |-> None] /\ ins = [r \in Regs |-> {}] /\ cl = [r \in Regs |-> -r - 1] /\ em = {} /\ ob = [r \in Regs |-> NoOb] /\ mk = [r \in Regs |-> ""]
  /\ h = [n |-> Trace[j].n, hc |-> Trace[j].hc, faulty |-> FALSE, skip |-> 0]
  /\ nbad = 0
Init == \E j \in Starts : Begin(j)

Next ==
  /\ i < N /\ Trace[i + 1].op # "init"
  /\ i' = i + 1
  /\ \E ev \in {Trace[i + 1]} : \E r \in {Step(ev)} :   \* bound, so evaluated once
     /\ IF r.bad = {} THEN TRUE ELSE PrintT("BAD " \o ToString(i + 1) \o " " \o ToString(r.bad \cup Later(ev, r.bad)))
     /\ nbad' = nbad + (IF r.bad = {} THEN 0 ELSE 1)
     /\ st' = IF r.d < 0 THEN st ELSE [st EXCEPT ![r.d] = r.m]
     /\ ins' = IF r.d < 0 THEN ins ELSE [ins EXCEPT ![r.d] = r.t]
     /\ cl' = IF r.d < 0 THEN cl ELSE [cl EXCEPT ![r.d] = r.c]
     /\ em' = IF ev.op = "eqm" /\ HasF(ev, "m") THEN Range(ev.m) ELSE IF r.d < 0 \/ em = {} THEN em ELSE {p \in em : p[1] # r.d /\ p[2] # r.d}
     /\ ob' = IF HasF(ev, "sz") /\ HasF(ev, "d") THEN [ob EXCEPT ![ev.d] = [sz |-> ev.sz, f |-> Range(ev.fnd), p |-> Probed(ev, h.n)]] ELSE ob
     /\ mk' = IF r.d < 0 THEN mk ELSE [mk EXCEPT ![r.d] = IF ev.op \in Makers THEN ev.op ELSE IF ev.op = "clone" THEN mk[ev.s] ELSE IF ev.op = "obs" THEN @ ELSE ""]
     /\ h' = IF r.brk \/ (HasF(ev, "e") /\ ev.e = "inj" /\ ~h.faulty) THEN [h EXCEPT !.skip = IF h.skip > 0 THEN h.skip ELSE IF r.brk THEN i + 1 ELSE 0, !.faulty = TRUE] ELSE h
Spec == Init /\ [][Next]_vars

View == i
(* every event of the file was consumed, once *)
Consumed == TLCGet("stats").distinct = N
=============================================================================
