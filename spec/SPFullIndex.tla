----------------------------- MODULE SPFullIndex -----------------------------
(* The full-node indexer: transactions are supplied one by one with their    *)
(* previous outputs; the scanner looks for the labels it was created with,   *)
(* which a restart sets to the labels known by then.  Universe as in         *)
(* SPIndex; u.txs[t].elig tells whether t has a usable input.                *)
(*   scanl   labels the scanner looks for      labels  labels known          *)
(*   known   transactions found to pay         idx     <<t, out, label>>     *)
(*   full    transactions in the graph         float   outpoints <<t, v>>    *)
(*           whose output alone is in the graph                              *)
EXTENDS SPIndex
Ext(o) == o[1] = 0
EmptyFull == [scanl |-> {}, labels |-> {}, known |-> {}, idx |-> {}, full |-> {}, float |-> {}]

IndexTx(u, st, t) ==
  LET found == IF u.txs[t].elig THEN Found(u, t, st.scanl) ELSE {}
      new == found # {} /\ t \notin st.known
      full == st.full \union {t}
      s1 == IF new THEN [st EXCEPT !.known = @ \union {t}, !.full = full,
                           !.float = {o \in @ \union Elems(u.txs[t].ins) : o[1] \notin full}]
            ELSE st
  IN  [s1 EXCEPT !.idx = @ \union {<<t, s.out, s.label>> : s \in found}]
FullStep(u, st, o) ==
  CASE o.op = "label" -> [st EXCEPT !.labels = @ \union {o.m}]
    [] o.op = "tx" -> IndexTx(u, st, o.tx)
    [] o.op = "restart" -> [st EXCEPT !.scanl = st.labels]
(* what a step adds to the graph is what it returns *)
Returned(old, new) == [full |-> SetToSeq(new.full \ old.full), float |-> SetToSeq(new.float \ old.float)]
Spenders(u, st) == {t \in 1..Len(u.txs) : \E o \in Elems(u.txs[t].ins) : \E x \in st.idx : <<x[1], x[2]>> = o}
FullView(u, old, st) ==
  [labels |-> SetToSeq(st.labels), idx |-> SetToSeq(st.idx), known |-> SetToSeq(st.known),
   full |-> SetToSeq(st.full), float |-> SetToSeq(st.float), spenders |-> SetToSeq(Spenders(u, st)),
   returned |-> Returned(old, st)]
=============================================================================
