----------------------------- MODULE TrieShare ------------------------------
(***************************************************************************)
(* What the operations of Trie share with their inputs (C18).  Every       *)
(* stored entry is marked with the trie that holds it; an algorithm that   *)
(* stores an entry anew, or copies it, loses the mark.  On every reachable *)
(* trie, and every pair of them, and every answer: entries that need not   *)
(* change keep their mark, unless they share their full hash with another. *)
(***************************************************************************)
EXTENDS TrieJoin

RECURSIVE Mark(_, _)
Mark(n, c) == CASE n.t = "C" -> NC([s \in DOMAIN n.c |-> Mark(n.c[s], c)])
                [] n.t = "L" -> [n EXCEPT !.s = [j \in DOMAIN n.s |-> Append(n.s[j], c)]]
                [] n.t = "S" -> NS(Append(n.e, c))
                [] OTHER -> n
(* ids stored in n with mark c *)
Marked(n, c) == {e[1] : e \in {y \in Ents(n) : Len(y) = 4 /\ y[4] = c}}
Peers(M) == {e[1] : e \in {y \in M : \E z \in M : z[1] # y[1] /\ lay[z[1]] = lay[y[1]]}}
Same(k) == {j \in K : lay[j] = lay[k]}

PointShare ==
  LET x == Mark(t, 0) IN
  \A k \in K :
    /\ Ids(m) \ Same(k) \subseteq Marked(Ins(lay, x, <<k, 1, 1>>, 0), 0)
    /\ (~Has(m, k) => Ids(m) \subseteq Marked(Ins(lay, x, <<k, 1, 1>>, 0), 0))    \* a new key never copies anything
    /\ (Has(m, k) => Ids(m) \ Same(k) \subseteq Marked(Root(Rem(lay, x, k, 0)), 0))
UnaryShare ==
  LET x == Mark(t, 0) IN
  \A tab \in Tabs({0, 1, 2}) :
    LET op == Op1(tab) r == Tr("f", "l", op, x) IN
    /\ UnaryKept(m, op.l, FALSE) \ Peers(m) \subseteq Marked(Root(r.n), 0)
    /\ (UnaryKept(m, op.l, FALSE) = Ids(m) => r.n = x)
Share1(kind, op, x, y, R) ==
  LET sh == JointShare(kind, m, R, op, FALSE)
      n == Root(Join(lay, Roles(kind), op, x, y, 0).n)
      p == Peers(m \cup {e \in R : ~Has(m, e[1])})
  IN /\ sh.left \ p \subseteq Marked(n, 0)
     /\ sh.right \ p \subseteq Marked(n, 1)
     /\ sh.either \ p \subseteq Marked(n, 0) \cup Marked(n, 1)
     /\ \A e \in Ents(n) : Len(e) = 4 => e \in Ents(x) \cup Ents(y)
JoinShare == LET x == Mark(t, 0) y == Mark(b, 1) R == Ents(b) IN
             \A kind \in Kinds : \A op \in Ops(Roles(kind), Ids(m), Keys(b)) : Share1(kind, op, x, y, R)
=============================================================================
