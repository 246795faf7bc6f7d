------------------------------- MODULE SPCanon -------------------------------
(* Chains, and which of the transactions held are canonical.  The blocks of   *)
(* the universe form a tree, u.blocks[b].prev is the parent (0: the genesis   *)
(* block), the height depends on the depth in the tree only, and u.rank[t]    *)
(* orders the transactions as their ids do.  w holds                          *)
(*   w.ix.gtxs, w.ix.anchors   transactions held, and <<t, b>> where they are  *)
(*   w.chain                   blocks of the best chain, lowest first          *)
EXTENDS SPIndex

RECURSIVE PathTo(_, _)
PathTo(u, b) == IF b = 0 THEN <<>> ELSE Append(PathTo(u, u.blocks[b].prev), b)

(* the chain after being told about the chain that ends in b: a part of the  *)
(* known chain changes nothing, anything else replaces it from where it forks *)
Follow(u, c, b) ==
  IF b \notin Elems(c) THEN PathTo(u, b)
  ELSE SetToSortSeq(Elems(c) \union Elems(PathTo(u, b)), LAMBDA x, y : u.blocks[x].height < u.blocks[y].height)

(* --------------------------------------------------------------- canonical *)
InGraph(w) == w.ix.gtxs
Parents(u, w, t) == {o[1] : o \in Elems(u.txs[t].ins)} \intersect InGraph(w)
RECURSIVE Up(_, _, _)
Up(u, w, S) == LET n == S \union UNION {Parents(u, w, t) : t \in S} IN IF n = S THEN S ELSE Up(u, w, n)
RECURSIVE Down(_, _, _)
Down(u, w, S) ==
  LET n == S \union {t \in InGraph(w) : Parents(u, w, t) \intersect S # {}}
  IN  IF n = S THEN S ELSE Down(u, w, n)
Spends(u, t) == IF u.txs[t].cb THEN {} ELSE Elems(u.txs[t].ins)
Rivals(u, w, S) == {t \in InGraph(w) \ S : \E c \in S : Spends(u, t) \intersect Spends(u, c) # {}}
BlocksOf(w, t) == {a[2] : a \in {x \in w.ix.anchors : x[1] = t}}
OnBest(w, t) == BlocksOf(w, t) \intersect Elems(w.chain)
TopHeight(u, w, t) == Max({u.blocks[b].height : b \in BlocksOf(w, t)})

Confirmed(u, w) == Up(u, w, {t \in InGraph(w) : OnBest(w, t) # {}})

(* What fell off the best chain is pending unless it conflicts with it, the  *)
(* latest first.                                                             *)
Leftover(u, w) ==
  LET before(a, b) == \/ TopHeight(u, w, a) > TopHeight(u, w, b)
                      \/ TopHeight(u, w, a) = TopHeight(u, w, b) /\ u.rank[a] > u.rank[b]
  IN  SetToSortSeq({t \in InGraph(w) : BlocksOf(w, t) # {} /\ OnBest(w, t) = {}}, before)
Canonical(u, w) ==
  LET conf == Confirmed(u, w)
      one(acc, t) ==
        IF t \in acc.yes \union acc.no THEN acc
        ELSE LET new == Up(u, w, {t})
                 out == Down(u, w, Rivals(u, w, new))
             IN  IF new \intersect (acc.no \union out) # {} THEN acc
                 ELSE [yes |-> acc.yes \union new, no |-> acc.no \union out]
      start == [yes |-> conf, no |-> Down(u, w, Rivals(u, w, conf))]
  IN  FoldLeft(one, start, Leftover(u, w)).yes

(* ------------------------------------------------------------------- money *)
(* idx: outputs <<t, v, label>> that are the wallet's                        *)
CoinsOf(u, w, idx) ==
  LET canon == Canonical(u, w)
      spent == UNION {Spends(u, t) : t \in canon}
  IN  {x \in idx : x[1] \in canon /\ <<x[1], x[2]>> \notin spent}
NothingLostOf(u, w, idx) ==
  \* an output left out is in a transaction that is not canonical, or spent by one that is
  \A x \in idx :
    \/ x \in CoinsOf(u, w, idx)
    \/ x[1] \notin Canonical(u, w)
    \/ \E t \in Canonical(u, w) : <<x[1], x[2]>> \in Spends(u, t)

(* -------------------------------------------------------------- properties *)
(* No two canonical transactions spend the same output, and canonical        *)
(* transactions come with the ancestors the graph has.                       *)
CanonConsistent(u, w) ==
  LET canon == Canonical(u, w)
  IN  /\ \A a, b \in canon : a # b => Spends(u, a) \intersect Spends(u, b) = {}
      /\ Up(u, w, canon) = canon
BestWins(u, w) == \A t \in InGraph(w) : OnBest(w, t) # {} => t \in Canonical(u, w)
=============================================================================
