------------------------------ MODULE MC_Index ------------------------------
(* The indexer as a state machine: every history, up to Depth steps, over    *)
(* the steps a scenario offers.  Each complete history is printed with the   *)
(* states the implementation must pass through.                              *)
EXTENDS SPIndex, Json, IOUtils
CONSTANTS Depth, Sel
Scn == ndJsonDeserialize(IOEnv.SCN)
S == Scn[Sel]
U == [txs |-> S.txs, blocks |-> S.blocks]
VARIABLES hist, st, store, path
vars == <<hist, st, store, path>>
Init == hist = <<>> /\ st = EmptyIndex /\ store = EmptyIndex /\ path = <<>>
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(S.ops) :
             LET n == Step(U, st, S.ops[i])
             IN  /\ hist' = Append(hist, i)
                 /\ st' = n
                 /\ store' = Merged(store, Changes(st, n))
                 /\ path' = Append(path, View(U, n))
Spec == Init /\ [][Next]_vars

TypeOK == hist \in Seq(1..Len(S.ops))
(* C14: what was returned rebuilds what is held *)
Rebuilds == store = st
(* C13: transactions whose tweak is kept pay the wallet and are in the graph *)
GraphHoldsPayments == \A t \in st.known : Found(U, t, st.labels) # {} /\ t \in st.gtxs
AnchoredInGraph == \A x \in Indexed(U, st) : x[1] \in st.gtxs
CoinbaseNeverIndexed == \A x \in Indexed(U, st) : ~U.txs[x[1]].cb
(* every indexed output has all lower derivation indexes indexed *)
Contiguous ==
  \A t \in st.known : \A s \in Found(U, t, st.labels) :
    \A j \in 0..s.k : \E r \in Found(U, t, st.labels) : r.k = j
(* nothing in the graph is there for no reason, unless unfiltered steps put it there *)
Unfiltered == \E i \in 1..Len(hist) : "mode" \in DOMAIN S.ops[hist[i]] /\ S.ops[hist[i]].mode = "all"
GraphIsRelevant == Unfiltered \/ \A t \in st.gtxs : Relevant(U, st, t)
(* labels and outputs only grow; the order of labels does not matter *)
Grows == [][/\ Indexed(U, st) \subseteq Indexed(U, st') /\ st.gtxs \subseteq st'.gtxs]_vars
Repeatable == hist = <<>> \/ Step(U, st, S.ops[hist[Len(hist)]]) = st
(* another label never hides an output                                       *)
LabelsOnlyAdd ==
  \A m \in {"1", "2", "7", "0"} :
    \A t \in st.known :
      Found(U, t, st.labels) \subseteq Found(U, t, AddLabel(U, st, m).labels)
Emit == Len(hist) < Depth \/ PrintT("OUT " \o ToJson([sel |-> Sel, ops |-> hist, states |-> path]))
=============================================================================
