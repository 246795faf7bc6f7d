------------------------------- MODULE MC_Cli2 -------------------------------
(* Every history of codes, node tips, scans by filters, and scans block by   *)
(* block, finished or failing at any point, with the node moving meanwhile.  *)
EXTENDS SPCli2, Json, IOUtils
CONSTANTS Depth, Sel
Scn == ndJsonDeserialize(IOEnv.SCN)
S == Scn[Sel]
U == [txs |-> S.txs, blocks |-> S.blocks, rank |-> S.rank, bday |-> S.bday]
VARIABLES hist, c, late
vars == <<hist, c, late>>
Init == hist = <<>> /\ c = NewCli /\ late = FALSE
Did(op, b, x) == hist' = Append(hist, IF op = "label" THEN [op |-> op, m |-> x] ELSE [op |-> op, b |-> b, from |-> x])
Node == \E b \in 1..Len(S.blocks) : b # c.node /\ c' = MoveNode(c, b) /\ Did("node", b, -1) /\ UNCHANGED late
Code == \E m \in Elems(S.labels) :
          /\ ~c.live /\ m \notin c.disk.ix.labels
          /\ c' = AddCode(U, c, m) /\ Did("label", 0, m)
          /\ late' = (late \/ c.disk.cover # {})
Begin == ~c.live /\ c' = Start(c) /\ Did("start", 0, -1) /\ UNCHANGED late
Read == /\ c.live
        /\ LET b == NextBlock(U, c.mem.chain, c.node) IN b # 0 /\ c' = Block(U, c, b) /\ Did("block", b, -1)
        /\ UNCHANGED late
End == /\ c.live /\ Reached(c) /\ NothingSkipped(U, c.mem)
       /\ c' = Finish(c) /\ Did("end", 0, -1) /\ UNCHANGED late
Stop == c.live /\ c' \in Fail(c) /\ Did("fail", 0, -1) /\ UNCHANGED late
\* a scan from the birthday on finds what codes made later were paid
Froms == {-1} \union {h \in 0..FromHeight(U, c.disk) : h >= U.bday}
Late(from) == late' = (late /\ (from < 0 \/ from > U.bday \/ Height(U, c.node) < Height(U, Top(c.disk.chain))))
Filter == /\ ~c.live /\ c.node # 0 /\ Height(U, c.node) >= U.bday
          /\ \E from \in Froms : c' = [Filters(U, c, from) EXCEPT !.tips = {}] /\ Did("filters", c.node, from) /\ Late(from)
FilterFail == /\ ~c.live /\ c.node # 0 /\ Height(U, c.node) >= U.bday
              /\ \E p \in FilterParts(U, c.disk, c.node, -1) : c' = [c EXCEPT !.disk = p, !.tips = {}]
              /\ Did("nofilters", c.node, -1) /\ UNCHANGED late
Next == Len(hist) < Depth /\ (Node \/ Code \/ Begin \/ Read \/ End \/ Stop \/ Filter \/ FilterFail)
Spec == Init /\ [][Next]_vars

Exact == ~late /\ ~c.disk.odd => SameAsFresh(U, c.disk)
ExactMem == c.live /\ ~late /\ ~c.mem.odd => SameAsFresh(U, c.mem)
Never == ~c.disk.odd => NoMoreThanFresh(U, c.disk)
Complete == NothingSkipped(U, c.disk)
Branch == c.disk.odd \/ OneBranch(U, c.disk)
Consistent ==
  \/ Torn(U, c.disk)
  \/ CanonConsistent(U, c.disk) /\ BestWins(U, c.disk) /\ NothingLostOf(U, c.disk, Indexed(U, c.disk.ix))
Sums == LET b == Balance(U, c.disk) IN b.total + b.pending = Worth(U, FileCoins(U, c.disk))
(* whole histories only: the scan is over *)
Emit == \/ Len(hist) = 0 \/ c.live \/ hist[Len(hist)].op \notin {"end", "fail", "filters", "nofilters"}
        \/ PrintT("OUT " \o ToJson([sel |-> Sel, ops |-> hist]))
=============================================================================
