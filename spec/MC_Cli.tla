------------------------------- MODULE MC_Cli --------------------------------
(* Every history of codes, node tips, scans read block by block, finished or *)
(* failing at any point, with the node moving while a scan runs.             *)
EXTENDS SPCli, Json, IOUtils
CONSTANTS Depth, Sel
Scn == ndJsonDeserialize(IOEnv.SCN)
S == Scn[Sel]
U == [txs |-> S.txs, blocks |-> S.blocks, rank |-> S.rank]
VARIABLES hist, c, late
vars == <<hist, c, late>>
Init == hist = <<>> /\ c = NewCli /\ late = FALSE
Did(e) == hist' = Append(hist, e)
Node == \E b \in 1..Len(S.blocks) :
          b # c.node /\ c' = MoveNode(c, b) /\ Did([op |-> "node", b |-> b, m |-> ""]) /\ UNCHANGED late
Code == \E m \in Elems(S.labels) :
          /\ ~c.live /\ m \notin c.disk.ix.labels
          /\ c' = AddCode(c, m) /\ Did([op |-> "label", b |-> 0, m |-> m])
          /\ late' = (late \/ c.disk.ix.read # {})
Begin == ~c.live /\ c' = Start(c) /\ Did([op |-> "start", b |-> 0, m |-> ""]) /\ UNCHANGED late
Read == /\ c.live
        /\ LET b == NextBlock(U, c.mem.chain, c.node)
           IN  b # 0 /\ c' = Block(U, c, b) /\ Did([op |-> "block", b |-> b, m |-> ""])
        /\ UNCHANGED late
End == c.live /\ Reached(c) /\ c' = Finish(c) /\ Did([op |-> "end", b |-> 0, m |-> ""]) /\ UNCHANGED late
Stop == /\ c.live /\ Len(hist) > 0
        /\ c' \in Fail(c) /\ Did([op |-> "fail", b |-> 0, m |-> ""]) /\ UNCHANGED late
Next == Len(hist) < Depth /\ (Node \/ Code \/ Begin \/ Read \/ End \/ Stop)
Spec == Init /\ [][Next]_vars
(* without the history: the whole state space of a small universe *)
Free == Init /\ [][(Node \/ Code \/ Begin \/ Read \/ End \/ Stop) /\ hist' = <<>>]_vars

Exact == ~late => SameAsFresh(U, c.disk) /\ SameAsFresh(U, c.mem)
Never == NoMoreThanFresh(U, c.disk)
Complete == NothingSkipped(c) /\ Elems(c.disk.chain) \subseteq c.disk.ix.read
Consistent == CanonConsistent(U, c.disk) /\ BestWins(U, c.disk) /\ NothingLostOf(U, c.disk, c.disk.ix.idx)
Sums == LET b == Balance(U, c.disk) IN b.total + b.pending = Worth(U, FileCoins(U, c.disk))
IsPath == c.disk.chain = IF c.disk.chain = <<>> THEN <<>> ELSE PathTo(U, c.disk.chain[Len(c.disk.chain)])
(* whole histories only: the scan is over *)
Emit == \/ Len(hist) = 0 \/ c.live \/ hist[Len(hist)].op \notin {"end", "fail"}
        \/ PrintT("OUT " \o ToJson([sel |-> Sel, ops |-> hist]))
=============================================================================
