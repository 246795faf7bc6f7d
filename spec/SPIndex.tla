------------------------------- MODULE SPIndex -------------------------------
(* The light-client indexer: which outputs and transactions it holds after   *)
(* any history of labels, blocks and unconfirmed transactions.               *)
(*                                                                           *)
(* A universe u lists everything that can be supplied:                       *)
(*   u.txs[t]     [ins, slots, nouts, cb]: ins are the spent outputs <<t, v>> *)
(*                (t = 0: outside the universe), slots the outputs that are   *)
(*                derived for the wallet, [out, k, label] with derivation     *)
(*                index k, cb whether it is a coinbase                        *)
(*   u.blocks[b]  [txs, height]                                              *)
(* State of the indexer:                                                     *)
(*   labels   labels known                                                   *)
(*   known    transactions whose tweak is kept                               *)
(*   gtxs     transactions in the graph                                      *)
(*   anchors  <<t, b>>, seen  <<t, time>>, evicted <<t, time>>               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Elems(seq) == {seq[i] : i \in 1..Len(seq)}
EmptyIndex == [labels |-> {}, known |-> {}, gtxs |-> {}, anchors |-> {}, seen |-> {}, evicted |-> {}]

(* Outputs of t recognised by a wallet that knows the labels L: those whose  *)
(* derivation index and all lower ones are recognised.                       *)
Found(u, t, L) ==
  LET mine == {s \in Elems(u.txs[t].slots) : s.label = "" \/ s.label \in L}
  IN  {s \in mine : \A j \in 0..(s.k - 1) : \E r \in mine : r.k = j}

(* The indexed outputs are a function of the tweaks kept and the labels.     *)
Indexed(u, st) == UNION {{<<t, s.out, s.label>> : s \in Found(u, t, st.labels)} : t \in st.known}
Owned(u, st) == {<<x[1], x[2]>> : x \in Indexed(u, st)}

Relevant(u, st, t) ==
  LET own == Owned(u, st)
  IN  \/ \E o \in own : o[1] = t
      \/ \E o \in Elems(u.txs[t].ins) : o \in own

(* a tweak for t is supplied: kept when it reveals an output                 *)
Index(u, st, t) == IF Found(u, t, st.labels) = {} THEN st ELSE [st EXCEPT !.known = @ \union {t}]
IndexAll(u, st, ts) == FoldLeft(LAMBDA s, t : Index(u, s, t), st, ts)

AddLabel(u, st, m) == [st EXCEPT !.labels = @ \union {m}]

(* mode is "rel" (only what concerns the wallet) or "all"; secrets are the   *)
(* transactions whose tweak was supplied; the coinbase is skipped            *)
ApplyBlock(u, st, b, secrets, mode) ==
  LET one(s, t) ==
        LET s1 == IF t \in secrets THEN Index(u, s, t) ELSE s
        IN  IF mode = "all" \/ Relevant(u, s1, t)
            THEN [s1 EXCEPT !.gtxs = @ \union {t}, !.anchors = @ \union {<<t, b>>}]
            ELSE s1
  IN  FoldLeft(one, st, Tail(u.blocks[b].txs))

InsertRelevant(u, st, items) ==
  LET s1 == IndexAll(u, st, [i \in 1..Len(items) |-> items[i].tx])
      keep == {i \in 1..Len(items) : Relevant(u, s1, items[i].tx)}
  IN  [s1 EXCEPT !.gtxs = @ \union {items[i].tx : i \in keep},
                 !.anchors = @ \union UNION {{<<items[i].tx, b>> : b \in Elems(items[i].blocks)} : i \in keep}]

InsertUnconfirmed(u, st, items, mode) ==
  LET s1 == IndexAll(u, st, [i \in 1..Len(items) |-> items[i].tx])
      keep == {i \in 1..Len(items) : mode = "all" \/ Relevant(u, s1, items[i].tx)}
  IN  [s1 EXCEPT !.gtxs = @ \union {items[i].tx : i \in keep},
                 !.seen = @ \union {<<items[i].tx, items[i].at>> : i \in keep}]

EvictRelevant(u, st, items) ==
  [st EXCEPT !.evicted = @ \union {<<items[i].tx, items[i].at>> : i \in {j \in 1..Len(items) : items[j].tx \in st.gtxs}}]

Step(u, st, o) ==
  CASE o.op = "label" -> AddLabel(u, st, o.m)
    [] o.op = "address" -> AddLabel(u, st, o.m)
    [] o.op = "block" -> ApplyBlock(u, st, o.b, Elems(o.secrets), o.mode)
    [] o.op = "relevant" -> InsertRelevant(u, st, o.items)
    [] o.op = "unconf" -> InsertUnconfirmed(u, st, o.items, o.mode)
    [] o.op = "anchor" -> [st EXCEPT !.anchors = @ \union {<<o.tx, o.b>>}]
    [] o.op = "seen" -> [st EXCEPT !.seen = @ \union {<<o.tx, o.at>>}]
    [] o.op = "evict" -> [st EXCEPT !.evicted = @ \union {<<o.tx, o.at>>}]
    [] o.op = "evictrel" -> EvictRelevant(u, st, o.items)

(* Change sets carry what was added, without the indexed outputs; merging    *)
(* them is union.  Rebuilding recomputes the index.                          *)
Changes(old, new) ==
  [f \in DOMAIN new |-> new[f] \ old[f]]
Merged(a, b) == [f \in DOMAIN a |-> a[f] \union b[f]]

(* last time of each transaction that has one                                *)
Latest(pairs) == {<<t, Max({p[2] : p \in {q \in pairs : q[1] = t}})>> : t \in {p[1] : p \in pairs}}

(* What can be observed                                                      *)
View(u, st) ==
  [labels |-> SetToSeq(st.labels), idx |-> SetToSeq(Indexed(u, st)), known |-> SetToSeq(st.known),
   gtxs |-> SetToSeq(st.gtxs), anchors |-> SetToSeq({a \in st.anchors : a[1] \in st.gtxs}),
   seen |-> SetToSeq({p \in Latest(st.seen) : p[1] \in st.gtxs}),
   evicted |-> SetToSeq(Latest(st.evicted))]
=============================================================================
