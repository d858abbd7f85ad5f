-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The hash trie as it is built: branches (C) that select a child by one   *)
(* chunk of the hash per level, collision chains (L) of entries with equal *)
(* hashes, single entries (S).  H[id] is the hash of a key: the sequence   *)
(* of the slots it selects, one per level.  Every operation below is the   *)
(* recursive algorithm of src/node on these nodes; TrieMC checks that each *)
(* of them does to the entries what MapSemantics says.                     *)
(***************************************************************************)
EXTENDS MapSemantics, TLC

NS(e) == [t |-> "S", e |-> e]
NL(s) == IF Len(s) = 0 THEN [t |-> "Z"] ELSE IF Len(s) = 1 THEN NS(s[1]) ELSE [t |-> "L", s |-> s]
NC(c) == [t |-> "C", c |-> c]          \* c: function from slots to nodes
NZ == [t |-> "Z"]                      \* nothing (never stored)
Empty == NC(<<>>)                      \* the root of a new map
Dom(f) == DOMAIN f
Put(c, s, n) == [x \in DOMAIN c \cup {s} |-> IF x = s THEN n ELSE c[x]]
Drop(c, s) == [x \in DOMAIN c \ {s} |-> c[x]]
(* an entry is stored as <<id, tag, val>>, or with a fourth component that tells this stored copy from others: what an
   algorithm below stores anew, or copies to rebuild a chain in front of a change, has none *)
Copy(e) == IF Len(e) = 4 THEN SubSeq(e, 1, 3) ELSE e
Copies(s) == [j \in DOMAIN s |-> Copy(s[j])]
Chain(n) == IF n.t = "L" THEN n.s ELSE IF n.t = "S" THEN <<n.e>> ELSE <<>>

RECURSIVE Ents(_)
Ents(n) == CASE n.t = "C" -> UNION {Ents(n.c[s]) : s \in DOMAIN n.c}
             [] n.t = "L" -> Range(n.s)
             [] n.t = "S" -> {n.e}
             [] OTHER -> {}
(* number of entries as the nodes count them: with multiplicity *)
RECURSIVE Size(_), SizeC(_, _)
SizeC(c, D) == IF D = {} THEN 0 ELSE LET s == CHOOSE x \in D : TRUE IN Size(c[s]) + SizeC(c, D \ {s})
Size(n) == CASE n.t = "C" -> SizeC(n.c, DOMAIN n.c) [] OTHER -> Len(Chain(n))

(* well-formed below depth d: entries sit where their hash leads, chains hold equal hashes, no empty or short nodes *)
RECURSIVE WF(_, _, _)
WF(H, n, d) ==
  CASE n.t = "C" -> \A s \in DOMAIN n.c :
                      /\ WF(H, n.c[s], d + 1) /\ Ents(n.c[s]) # {}
                      /\ d < Len(H[0]) /\ \A e \in Ents(n.c[s]) : H[e[1]][d + 1] = s
    [] n.t = "L" -> Len(n.s) >= 2 /\ (\A i, j \in DOMAIN n.s : H[n.s[i][1]] = H[n.s[j][1]] /\ (i # j => n.s[i][1] # n.s[j][1]))
    [] n.t = "S" -> TRUE
    [] OTHER -> FALSE

(* a chain or single entry x and another, y, with a different hash: branches down to where the hashes part *)
RECURSIVE Lift(_, _, _, _)
Lift(H, x, y, d) ==
  LET sx == H[Chain(x)[1][1]][d + 1]  sy == H[Chain(y)[1][1]][d + 1] IN
  IF sx = sy THEN NC(Put(<<>>, sx, Lift(H, x, y, d + 1))) ELSE NC(Put(Put(<<>>, sx, x), sy, y))
HashOf(H, n) == H[Chain(n)[1][1]]

(* find: follow the hash, then compare keys *)
RECURSIVE Find(_, _, _, _)
Find(H, n, k, d) ==
  IF n.t = "C" THEN (IF H[k][d + 1] \in DOMAIN n.c THEN Find(H, n.c[H[k][d + 1]], k, d + 1) ELSE {})
  ELSE {e \in Range(Chain(n)) : e[1] = k}

(* a chain without key k: the entries in front of it are copied, those behind it stay *)
Without1(c, k) == LET i == CHOOSE j \in DOMAIN c : c[j][1] = k IN Copies(SubSeq(c, 1, i - 1)) \o SubSeq(c, i + 1, Len(c))
(* insert entry e (replacing an equal key) *)
RECURSIVE Ins(_, _, _, _)
Ins(H, n, e, d) ==
  IF n.t = "C" THEN LET s == H[e[1]][d + 1] IN NC(Put(n.c, s, IF s \in DOMAIN n.c THEN Ins(H, n.c[s], e, d + 1) ELSE NS(e)))
  ELSE LET c == Chain(n) IN
       IF \E i \in DOMAIN c : c[i][1] = e[1] THEN NL(<<e>> \o Without1(c, e[1]))
       ELSE IF HashOf(H, n) = H[e[1]] THEN NL(<<e>> \o c)
       ELSE Lift(H, n, NS(e), d)

(* remove key k, which is present: a branch keeps its place unless it becomes empty *)
RECURSIVE Rem(_, _, _, _)
Rem(H, n, k, d) ==
  IF n.t = "C" THEN LET s == H[k][d + 1] x == Rem(H, n.c[s], k, d + 1)
                    IN IF x.t = "Z" THEN (IF DOMAIN n.c = {s} THEN NZ ELSE NC(Drop(n.c, s))) ELSE NC(Put(n.c, s, x))
  ELSE NL(Without1(Chain(n), k))

(***************************************************************************)
(* Results of the structure-wide operations: n the node (Z: nothing left), *)
(* u which inputs it is identical to ({}, {"l"}, {"r"}, both), x the calls *)
(* made, in order, as <<operator, id>>.                                    *)
(***************************************************************************)
Res(n, u, x) == [n |-> n, u |-> u, x |-> x]
(* a branch from the children that are left: nothing, the child itself if it is not a branch, or a branch *)
Pack(c) == IF DOMAIN c = {} THEN NZ
           ELSE IF Cardinality(DOMAIN c) = 1 /\ (\A s \in DOMAIN c : c[s].t # "C") THEN c[CHOOSE s \in DOMAIN c : TRUE]
           ELSE NC(c)
RECURSIVE Cat(_, _)
Cat(f, D) == IF D = {} THEN <<>> ELSE LET s == CHOOSE x \in D : \A y \in D : x <= y IN f[s] \o Cat(f, D \ {s})

(* one operator on one entry: side "l" or "r", role "f", "m" or "t"; constants make no calls *)
One(role, side, op, e) ==
  LET o == IF side = "l" THEN op.l ELSE op.r
      c == Ans(role, o.cst, o.table, e[1], FALSE)
      out == OneOut(role, e, c, o.base + e[1], FALSE)
  IN [o |-> out, u |-> role = "f" /\ c = 0, x |-> IF o.cst >= 0 THEN <<>> ELSE <<<<side, e[1]>>>>]
(* what an operator left of an entry, in front of a chain: the entry itself if all behind it stayed, else a copy *)
Kept(o, same) == IF o = {} THEN <<>> ELSE LET e == CHOOSE y \in o : TRUE IN <<IF same THEN e ELSE Copy(e)>>
(* transform or transmute of a whole node; chains are walked from their end *)
RECURSIVE Walk(_, _, _, _)
Walk(role, side, op, s) ==
  IF s = <<>> THEN [s |-> <<>>, u |-> TRUE, x |-> <<>>]
  ELSE LET w == Walk(role, side, op, Tail(s)) a == One(role, side, op, Head(s))
       IN [s |-> Kept(a.o, a.u /\ w.u) \o w.s, u |-> a.u /\ w.u, x |-> w.x \o a.x]
RECURSIVE Tr(_, _, _, _)
Tr(role, side, op, n) ==
  LET o == IF side = "l" THEN op.l ELSE op.r IN
  IF role = "f" /\ o.cst = 0 THEN Res(n, {side}, <<>>)
  ELSE IF o.cst >= 0 /\ Norm(role, o.cst, TRUE, FALSE) = 2 THEN Res(NZ, {}, <<>>)
  ELSE IF n.t = "C" THEN
       LET r == [s \in DOMAIN n.c |-> Tr(role, side, op, n.c[s])]
           x == Cat([s \in DOMAIN n.c |-> r[s].x], DOMAIN n.c)
       IN IF role = "f" /\ \A s \in DOMAIN n.c : r[s].u # {} THEN Res(n, {side}, x)
          ELSE Res(Pack([s \in {z \in DOMAIN n.c : r[z].n.t # "Z"} |-> r[s].n]), {}, x)
  ELSE LET w == Walk(role, side, op, Chain(n)) IN IF role = "f" /\ w.u THEN Res(n, {side}, w.x) ELSE Res(NL(w.s), {}, w.x)

(* the pair operator on entries l and r with equal keys *)
Pair(ro, op, l, r) ==
  LET c == Ans(ro.b, op.b.cst, op.b.table, l[1], FALSE)
      out == PairOut(ro.b, ro.side, l, r, c, op.b.base + l[1], FALSE)
      u == CASE ro.b = "j" -> (IF c = 0 THEN {"l", "r"} ELSE IF c = 1 THEN {"l"} ELSE IF c = 2 THEN {"r"} ELSE {})
             [] ro.b = "f" -> (IF c = 0 THEN {ro.side} ELSE {})
             [] OTHER -> {}
  IN [o |-> IF c = 0 /\ ro.b = "j" THEN {l} ELSE IF out = {} THEN {} ELSE {CHOOSE e \in out : TRUE}, u |-> u, x |-> IF op.b.cst >= 0 THEN <<>> ELSE <<<<"b", l[1]>>>>]

(* remove the element at position i the way Vec::swap_remove does *)
SwapRemove(s, i) == LET n == Len(s) IN IF i = n THEN SubSeq(s, 1, n - 1) ELSE [j \in 1..(n - 1) |-> IF j = i THEN s[n] ELSE s[j]]
(* two chains of equal hash: the left one from its end, each with its partner if it has one; then what is left of the right one *)
RECURSIVE ChainL(_, _, _, _)
ChainL(ro, op, ls, rs) ==
  IF ls = <<>> THEN [s |-> <<>>, r |-> rs, u |-> {"l", "r"}, x |-> <<>>]
  ELSE LET w == ChainL(ro, op, Tail(ls), rs)
           e == Head(ls)
           I == {i \in DOMAIN w.r : w.r[i][1] = e[1]}
       IN IF I = {} THEN LET a == One(ro.l, "l", op, e)
                             u == IF a.u THEN w.u \ {"r"} ELSE {}
                         IN [s |-> Kept(a.o, "l" \in u) \o w.s, r |-> w.r, u |-> u, x |-> w.x \o a.x]
          ELSE LET i == CHOOSE j \in I : TRUE a == Pair(ro, op, e, w.r[i])
                   u == w.u \cap a.u
               IN [s |-> Kept(a.o, "l" \in u) \o w.s, r |-> SwapRemove(w.r, i), u |-> u, x |-> w.x \o a.x]
RECURSIVE ChainR(_, _, _, _)
ChainR(ro, op, w, rs) ==
  IF rs = <<>> THEN w
  ELSE LET a == One(ro.r, "r", op, Head(rs))
       IN ChainR(ro, op, [s |-> Kept(a.o, FALSE) \o w.s, r |-> <<>>,
                          u |-> IF a.o = {} THEN w.u \ {"r"} ELSE IF a.u THEN w.u \ {"l"} ELSE {}, x |-> w.x \o a.x], Tail(rs))

(* what a branch, or a chain or entry seen as a branch of one child, has at depth d *)
Kids(H, n, d) == IF n.t = "C" THEN n.c ELSE Put(<<>>, HashOf(H, n)[d + 1], n)

(* the constant combinations answered without looking at the branches *)
Short(ro, op, a, b) ==
  IF ro.b # "j" \/ op.b.cst < 0 \/ op.l.cst < 0 \/ op.r.cst < 0 \/ a.t # "C" \/ b.t # "C" THEN NZ
  ELSE LET bb == Norm("j", op.b.cst, TRUE, FALSE) ll == Norm("f", op.l.cst, TRUE, FALSE) rr == Norm("f", op.r.cst, TRUE, FALSE)
       IN IF bb \in {0, 1} /\ ll = 0 /\ rr = 2 THEN Res(a, {"l"}, <<>>)
          ELSE IF bb \in {0, 2} /\ ll = 2 /\ rr = 0 THEN Res(b, {"r"}, <<>>)
          ELSE IF bb = 4 /\ ll = 2 /\ rr = 2 THEN Res(NZ, {}, <<>>) ELSE NZ

RECURSIVE Join(_, _, _, _, _, _)
Join(H, ro, op, a, b, d) ==
  IF Short(ro, op, a, b) # NZ THEN Short(ro, op, a, b)
  ELSE IF a.t = "C" \/ b.t = "C" THEN
    LET ka == Kids(H, a, d) kb == Kids(H, b, d)
        D == DOMAIN ka \cup DOMAIN kb
        r == [s \in D |-> IF s \in DOMAIN ka /\ s \in DOMAIN kb THEN Join(H, ro, op, ka[s], kb[s], d + 1)
                          ELSE IF s \in DOMAIN ka THEN Tr(ro.l, "l", op, ka[s]) ELSE Tr(ro.r, "r", op, kb[s])]
        x == Cat([s \in D |-> r[s].x], D)
        ul == ro.l = "f" /\ \A s \in D : "l" \in r[s].u
        ur == ro.r = "f" /\ \A s \in D : "r" \in r[s].u
    IN IF ul THEN Res(a, IF ur THEN {"l", "r"} ELSE {"l"}, x)
       ELSE IF ur THEN Res(b, {"r"}, x)
       ELSE Res(Pack([s \in {z \in D : r[z].n.t # "Z"} |-> r[s].n]), {}, x)
  ELSE IF HashOf(H, a) = HashOf(H, b) THEN
    LET w == ChainL(ro, op, Chain(a), Chain(b))
        v == ChainR(ro, op, w, w.r)
    IN IF ro.l = "f" /\ "l" \in v.u THEN Res(a, v.u \cap (IF ro.r = "f" THEN {"l", "r"} ELSE {"l"}), v.x)
       ELSE IF ro.r = "f" /\ "r" \in v.u THEN Res(b, {"r"}, v.x)
       ELSE Res(NL(v.s), {}, v.x)
  ELSE
    LET p == Tr(ro.l, "l", op, a) q == Tr(ro.r, "r", op, b) IN
    IF p.n.t = "Z" THEN (IF q.n.t = "Z" THEN Res(NZ, {}, p.x \o q.x) ELSE Res(q.n, q.u, p.x \o q.x))
    ELSE IF q.n.t = "Z" THEN Res(p.n, p.u, p.x \o q.x)
    ELSE Res(Lift(H, p.n, q.n, d), {}, p.x \o q.x)

(* at the root, nothing left is a new map *)
Root(n) == IF n.t = "Z" THEN Empty ELSE n
=============================================================================
