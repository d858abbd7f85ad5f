------------------------------ MODULE Ownership ------------------------------
(***************************************************************************)
(* Shared ownership of nodes.  Cells are branches (with counted references *)
(* to children) or entries; threads clone, drop and derive versions from   *)
(* the handles they hold, one counter update at a time, in any             *)
(* interleaving; a derivation may be abandoned at every step, because the  *)
(* caller's code panicked (C05, C19, C20, C21).                            *)
(*                                                                         *)
(* Fault plants a mistake, to see the invariants fail: "racy" increments   *)
(* that read and write separately, "leak" forgets what an abandoned        *)
(* derivation had acquired, "early" releases the source before the         *)
(* children are acquired, "none".                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cells,     \* number of cells
          Threads, MaxOps, Borrowed, Fault
C == 1..Cells
T == 1..Threads
VARIABLES kind,   \* cell -> "none" | "branch" | "entry" | "freed"
          kids,   \* cell -> children
          rc,     \* cell -> counter
          drops,  \* cell -> how often the entry in it was dropped
          hand,   \* thread -> sequence of handles <<root, the entries it must have>>; thread 0: handles lent to all threads
          pc, ops
vars == <<kind, kids, rc, drops, hand, pc, ops>>
Idle == [do |-> "idle"]
Lent == 0
RangeS(s) == {s[i] : i \in DOMAIN s}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Fresh == CHOOSE c \in C : kind[c] = "none" /\ \A d \in C : kind[d] = "none" => c <= d
Room(n) == Cardinality({c \in C : kind[c] = "none"}) >= n

(* a root with two entries; each thread has a handle of its own, or all use one that is lent to them *)
Init ==
  /\ kind = [c \in C |-> IF c = 1 THEN "branch" ELSE IF c <= 3 THEN "entry" ELSE "none"]
  /\ kids = [c \in C |-> IF c = 1 THEN <<2, 3>> ELSE <<>>]
  /\ rc = [c \in C |-> IF c = 1 THEN (IF Borrowed THEN 1 ELSE Threads) ELSE IF c <= 3 THEN 1 ELSE 0]
  /\ drops = [c \in C |-> 0]
  /\ hand = [t \in 0..Threads |-> IF (t = Lent) = Borrowed THEN <<<<1, {2, 3}>>>> ELSE <<>>]
  /\ pc = [t \in T |-> Idle] /\ ops = [t \in T |-> 0]

Start(t) == pc[t].do = "idle" /\ ops[t] < MaxOps
Begin(t, p) == pc' = [pc EXCEPT ![t] = p] /\ ops' = [ops EXCEPT ![t] = @ + 1]
Go(t, p) == pc' = [pc EXCEPT ![t] = p] /\ UNCHANGED ops
Handles(t) == hand[t] \o hand[Lent]

(* counting up: one step, or with the planted race two *)
Clone(t) == Start(t) /\ \E i \in DOMAIN Handles(t) : Begin(t, [do |-> "up", cell |-> Handles(t)[i][1], next |-> [do |-> "handle", h |-> Handles(t)[i]]]) /\ UNCHANGED <<kind, kids, rc, drops, hand>>
Up(t) ==
  /\ pc[t].do = "up"
  /\ IF Fault = "racy" THEN Go(t, [do |-> "up2", cell |-> pc[t].cell, was |-> rc[pc[t].cell], next |-> pc[t].next]) /\ UNCHANGED rc
     ELSE rc' = [rc EXCEPT ![pc[t].cell] = @ + 1] /\ Go(t, pc[t].next)
  /\ UNCHANGED <<kind, kids, drops, hand>>
Up2(t) == pc[t].do = "up2" /\ rc' = [rc EXCEPT ![pc[t].cell] = pc[t].was + 1] /\ Go(t, pc[t].next) /\ UNCHANGED <<kind, kids, drops, hand>>
Handle(t) == pc[t].do = "handle" /\ hand' = [hand EXCEPT ![t] = Append(@, pc[t].h)] /\ Go(t, Idle) /\ UNCHANGED <<kind, kids, rc, drops>>

(* giving a handle up: a list of counters to take down *)
DropH(t) == Start(t) /\ \E i \in DOMAIN hand[t] :
  hand' = [hand EXCEPT ![t] = Without(@, i)] /\ Begin(t, [do |-> "down", work |-> <<hand[t][i][1]>>]) /\ UNCHANGED <<kind, kids, rc, drops>>
(* the last thread out gives the lent handle up *)
DropLent == /\ Borrowed /\ hand[Lent] # <<>> /\ \A t \in T : pc[t].do = "idle" /\ ops[t] = MaxOps
            /\ hand' = [hand EXCEPT ![Lent] = <<>>] /\ Go(1, [do |-> "down", work |-> <<hand[Lent][1][1]>>]) /\ UNCHANGED <<kind, kids, rc, drops>>
(* at the end everything is given up *)
DropRest(t) == /\ pc[t].do = "idle" /\ ops[t] = MaxOps /\ hand[t] # <<>>
               /\ hand' = [hand EXCEPT ![t] = Tail(@)] /\ Go(t, [do |-> "down", work |-> <<hand[t][1][1]>>]) /\ UNCHANGED <<kind, kids, rc, drops>>
Down(t) ==
  /\ pc[t].do = "down"
  /\ IF pc[t].work = <<>> THEN Go(t, Idle) /\ UNCHANGED <<kind, rc, drops>>
     ELSE LET c == Head(pc[t].work) last == rc[c] = 1 IN
          /\ rc' = [rc EXCEPT ![c] = @ - 1]
          /\ kind' = IF last THEN [kind EXCEPT ![c] = "freed"] ELSE kind
          /\ drops' = IF last /\ kind[c] # "branch" THEN [drops EXCEPT ![c] = @ + 1] ELSE drops
          /\ Go(t, [do |-> "down", work |-> (IF last THEN kids[c] ELSE <<>>) \o Tail(pc[t].work)])
  /\ UNCHANGED <<kids, hand>>

(* deriving: acquire the children that stay, make a new entry (the caller's code runs), build the branch *)
Derive(t) == Start(t) /\ Room(2) /\ \E i \in DOMAIN Handles(t) : \E rep \in 0..Len(kids[Handles(t)[i][1]]) : \E new \in BOOLEAN :
  LET h == Handles(t)[i] ks == kids[h[1]] keep == IF rep = 0 THEN ks ELSE Without(ks, rep) IN
  /\ rep # 0 \/ (new /\ Len(ks) < 3)
  /\ Begin(t, [do |-> "build", todo |-> keep, got |-> <<>>, new |-> new])
  /\ UNCHANGED <<kind, kids, rc, drops>>
  /\ IF Fault = "early" /\ i <= Len(hand[t]) THEN hand' = [hand EXCEPT ![t] = Without(@, i)] ELSE UNCHANGED hand
Build(t) ==
  /\ pc[t].do = "build"
  /\ IF pc[t].todo # <<>> THEN
       /\ Go(t, [do |-> "up", cell |-> Head(pc[t].todo), next |-> [pc[t] EXCEPT !.todo = Tail(@), !.got = Append(@, Head(pc[t].todo))]])
       /\ UNCHANGED <<kind, kids, rc, drops, hand>>
     ELSE IF pc[t].new THEN
       /\ Room(1) /\ kind' = [kind EXCEPT ![Fresh] = "entry"] /\ rc' = [rc EXCEPT ![Fresh] = 1]
       /\ Go(t, [pc[t] EXCEPT !.new = FALSE, !.got = Append(@, Fresh)]) /\ UNCHANGED <<kids, drops, hand>>
     ELSE
       /\ Room(1) /\ kind' = [kind EXCEPT ![Fresh] = "branch"] /\ kids' = [kids EXCEPT ![Fresh] = pc[t].got] /\ rc' = [rc EXCEPT ![Fresh] = 1]
       /\ hand' = [hand EXCEPT ![t] = Append(@, <<Fresh, RangeS(pc[t].got)>>)] /\ Go(t, Idle) /\ UNCHANGED drops
Abort(t) == pc[t].do = "build" /\ Go(t, [do |-> "down", work |-> IF Fault = "leak" THEN <<>> ELSE pc[t].got]) /\ UNCHANGED <<kind, kids, rc, drops, hand>>

Next == DropLent \/ \E t \in T : Clone(t) \/ Up(t) \/ Up2(t) \/ Handle(t) \/ DropH(t) \/ DropRest(t) \/ Down(t) \/ Derive(t) \/ Build(t) \/ Abort(t)
Spec == Init /\ [][Next]_vars

Live(c) == kind[c] \in {"branch", "entry"}
(* references to a cell: handles, children of live branches, what an operation in progress holds *)
Held(t) == CASE pc[t].do = "down" -> pc[t].work [] pc[t].do = "build" -> pc[t].got
             [] pc[t].do = "handle" -> <<pc[t].h[1]>>
             [] pc[t].do \in {"up", "up2"} -> IF pc[t].next.do = "build" THEN SubSeq(pc[t].next.got, 1, Len(pc[t].next.got) - 1) ELSE <<>>
             [] OTHER -> <<>>
Refs(c) == Cardinality({<<t, i>> \in (0..Threads) \X (1..9) : i \in DOMAIN hand[t] /\ hand[t][i][1] = c})
           + Cardinality({<<b, i>> \in C \X (1..9) : kind[b] = "branch" /\ i \in DOMAIN kids[b] /\ kids[b][i] = c})
           + Cardinality({<<t, i>> \in T \X (1..9) : i \in DOMAIN Held(t) /\ Held(t)[i] = c})
Counted == \A c \in C : Live(c) => rc[c] = Refs(c)
NoDangling == \A c \in C : Refs(c) > 0 => Live(c)
DropOnce == \A c \in C : drops[c] <= 1 /\ (drops[c] = 1 <=> (kind[c] = "freed" /\ kids[c] = <<>> /\ rc[c] = 0 /\ drops[c] = 1))
(* every handle has the entries it had when it was made, alive *)
Persist == \A t \in 0..Threads : \A i \in DOMAIN hand[t] : LET h == hand[t][i] IN Live(h[1]) /\ RangeS(kids[h[1]]) = h[2] /\ \A e \in h[2] : kind[e] = "entry" /\ drops[e] = 0
(* when nobody holds anything, nothing is left *)
Clean == ((\A t \in 0..Threads : hand[t] = <<>>) /\ \A t \in T : pc[t].do = "idle") => \A c \in C : ~Live(c)

(***************************************************************************)
(* The numbers of the cells say only in which order they were made: states *)
(* that differ in nothing else are one (cells are numbered by the order in *)
(* which handles and operations mention them; the faults of the rest are   *)
(* kept, so that no state that breaks an invariant hides behind one that   *)
(* does not).                                                              *)
(***************************************************************************)
RECURSIVE Flat(_), Dedup(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF \E i \in DOMAIN r : r[i] = x THEN r ELSE Append(r, x)
RECURSIVE Mentioned(_)
Mentioned(p) == CASE p.do = "down" -> p.work [] p.do = "build" -> p.got \o p.todo [] p.do = "handle" -> <<p.h[1]>>
                  [] p.do \in {"up", "up2"} -> <<p.cell>> \o Mentioned(p.next) [] OTHER -> <<>>
Order == LET top == Dedup(Flat([t \in 1..(Threads + 1) |-> [i \in DOMAIN hand[t - 1] |-> hand[t - 1][i][1]]]) \o Flat([t \in T |-> Mentioned(pc[t])]))
         IN Dedup(top \o Flat([i \in DOMAIN top |-> kids[top[i]]]))
RECURSIVE Renamed(_, _)
Renamed(p, N) == LET S(s) == [i \in DOMAIN s |-> N[s[i]]] IN
  CASE p.do = "down" -> <<"down", S(p.work)>> [] p.do = "build" -> <<"build", S(p.got), S(p.todo), p.new>>
    [] p.do = "handle" -> <<"handle", N[p.h[1]], {N[e] : e \in p.h[2]}>>
    [] p.do = "up" -> <<"up", N[p.cell], Renamed(p.next, N)>> [] p.do = "up2" -> <<"up2", N[p.cell], p.was, Renamed(p.next, N)>> [] OTHER -> <<>>
View == LET o == Order N == [c \in C |-> IF \E i \in DOMAIN o : o[i] = c THEN CHOOSE i \in DOMAIN o : o[i] = c ELSE 0] IN
  <<[i \in DOMAIN o |-> <<kind[o[i]], rc[o[i]], [j \in DOMAIN kids[o[i]] |-> N[kids[o[i]][j]]]>>],
    [t \in 0..Threads |-> [i \in DOMAIN hand[t] |-> <<N[hand[t][i][1]], {N[e] : e \in hand[t][i][2]}>>]],
    [t \in T |-> Renamed(pc[t], N)], ops, Cardinality({c \in C : kind[c] = "none"}), Counted /\ NoDangling /\ DropOnce /\ Persist /\ Clean>>
=============================================================================
