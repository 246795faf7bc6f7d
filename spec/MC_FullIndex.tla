---------------------------- MODULE MC_FullIndex ----------------------------
(* The full-node indexer as a state machine, every history up to Depth.      *)
EXTENDS SPFullIndex, Json, IOUtils
CONSTANTS Depth, Sel
Scn == ndJsonDeserialize(IOEnv.SCN)
S == Scn[Sel]
U == [txs |-> S.txs, blocks |-> S.blocks]
VARIABLES hist, st, path
vars == <<hist, st, path>>
Init == hist = <<>> /\ st = EmptyFull /\ path = <<>>
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(S.ops) :
             LET n == FullStep(U, st, S.ops[i])
             IN  hist' = Append(hist, i) /\ st' = n /\ path' = Append(path, FullView(U, st, n))
Spec == Init /\ [][Next]_vars
GraphIsPayments == st.known = st.full /\ {x[1] : x \in st.idx} = st.known
PrevoutsKept == \A t \in st.known : \A o \in Elems(U.txs[t].ins) : o \in st.float \/ o[1] \in st.full
OnlyEligible == \A x \in st.idx : U.txs[x[1]].elig
OnlyKnownLabels == \A x \in st.idx : x[3] = "" \/ x[3] \in st.labels
Repeatable == hist = <<>> \/ FullStep(U, st, S.ops[hist[Len(hist)]]) = st
(* a wallet that knew the labels from the start holds whatever this one does *)
Upper == \A x \in st.idx : \E s \in Found(U, x[1], st.labels) : <<x[1], s.out, s.label>> = x
Grows == [][st.idx \subseteq st'.idx /\ st.full \subseteq st'.full]_vars
Emit == Len(hist) < Depth \/ PrintT("OUT " \o ToJson([sel |-> Sel, ops |-> hist, states |-> path]))
=============================================================================
