------------------------------ MODULE SPOracle ------------------------------
(* Block filters and tweaks: which blocks are reported to the wallet.        *)
(*                                                                           *)
(*   node --filter, tip--> filter side --batches, tips--> tweak side         *)
(*                                           tweak side <--answers-- server  *)
(*                                           tweak side --matches, tips-->   *)
(*                                                                           *)
(* Universe u:                                                               *)
(*   u.blocks[b]  [height, tweaks, has, answer, own]: the tweaks the server   *)
(*                has for b; the scripts its filter contains, each <<"d", t,  *)
(*                m, k>> (the k-th derived from tweak t for label m, "" for   *)
(*                none), <<"u", i>> (an unspent script) or <<"x", i>>;        *)
(*                whether the server answers ("ok") or how it fails          *)
(*   u.labels, u.unspent, u.birthday, u.limit (filters held before a batch    *)
(*                is made of them), u.events: what the node sends, each       *)
(*                [ev |-> "filter" or "tip" or "restart", b]                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Elems(seq) == {seq[i] : i \in 1..Len(seq)}

(* ------------------------------------------------------- which blocks match *)
(* Scripts are watched for: w, at first those of the unspent outputs.  Every *)
(* output found is watched for from then on: its spend is what the wallet    *)
(* needs to be told about next.                                              *)
Unspent(u) == {<<"u", i>> : i \in Elems(u.unspent)}
Names(u) == Elems(u.labels) \union {""}
DerivedFrom(u, ts, k) == {<<"d", t, m, k>> : t \in ts, m \in Names(u)}
(* a block whose tweaks could be fetched reveals its first scripts           *)
Derived(u, b) == DerivedFrom(u, Elems(u.blocks[b].tweaks), 0)
Filter(u, b) == Elems(u.blocks[b].has)
Known(u, b, a) == IF a = "ok" THEN Derived(u, b) ELSE {}
Tells(u, b, w, a) == Filter(u, b) \intersect (Known(u, b, a) \union w) # {}
(* outputs of one transaction for one recipient have consecutive numbers     *)
RECURSIVE Row(_, _, _, _)
Row(u, b, t, k) ==
  LET here == DerivedFrom(u, {t}, k) \intersect Filter(u, b)
  IN  IF here = {} THEN {} ELSE here \union Row(u, b, t, k + 1)
Found(u, b, a) == IF a = "ok" THEN UNION {Row(u, b, t, 0) : t \in Elems(u.blocks[b].tweaks)} ELSE {}

(* A batch is gone through in order of height.  full: what would be watched  *)
(* for had the server always answered; known: what is.                       *)
InOrder(u, bs) == SetToSortSeq(bs, LAMBDA x, y : u.blocks[x].height < u.blocks[y].height)
Step(u, st, b) ==
  LET a == u.blocks[b].answer
      told == Tells(u, b, st.known, a)
      need == Tells(u, b, st.full, "ok")
  IN  [full |-> st.full \union Found(u, b, "ok"), known |-> st.known \union Found(u, b, a),
       match |-> IF told THEN Append(st.match, b) ELSE st.match,
       lost |-> IF need /\ ~told THEN Append(st.lost, b) ELSE st.lost]
NewWatch(u) == [full |-> Unspent(u), known |-> Unspent(u), match |-> <<>>, lost |-> <<>>]
TweakSide(u, st, bs) == FoldLeft(LAMBDA acc, b : Step(u, acc, b), [st EXCEPT !.match = <<>>, !.lost = <<>>], InOrder(u, bs))

(* ------------------------------------------------------------- filter side *)
(* one filter per height is held, the latest                                 *)
Hold(u, queue, b) == {c \in queue : u.blocks[c].height # u.blocks[b].height} \union {b}
(* result of one event: [queue, sent]                                        *)
FilterSide(u, queue, e) ==
  CASE e.ev = "filter" ->
         IF u.blocks[e.b].height < u.birthday THEN [queue |-> queue, sent |-> <<>>]
         ELSE LET q == Hold(u, queue, e.b)
              IN  IF Cardinality(q) > u.limit THEN [queue |-> {}, sent |-> <<[m |-> "batch", bs |-> q, b |-> 0]>>]
                  ELSE [queue |-> q, sent |-> <<>>]
    [] e.ev = "tip" -> [queue |-> {}, sent |-> <<[m |-> "batch", bs |-> queue, b |-> 0], [m |-> "tip", bs |-> {}, b |-> e.b]>>]
    [] e.ev = "restart" -> [queue |-> {}, sent |-> <<[m |-> "restart", bs |-> {}, b |-> 0]>>]

(* the whole sequence of batches and tips the events lead to                 *)
RECURSIVE Sent(_, _, _)
Sent(u, queue, es) ==
  IF es = <<>> THEN <<>>
  ELSE LET r == FilterSide(u, queue, Head(es)) IN r.sent \o Sent(u, r.queue, Tail(es))
AllSent(u) == Sent(u, {}, u.events)
=============================================================================
