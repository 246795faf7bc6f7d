----------------------------- MODULE EvalOracle -----------------------------
(* For each scenario: the batches and tips in order, with the blocks that    *)
(* must be reported and those a failing server makes impossible to report.   *)
EXTENDS SPOracle, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
Expected(s) ==
  LET sent == TLCEval(AllSent(s))
      after(st, x) == CASE x.m = "batch" -> TweakSide(s, st, x.bs)
                        [] x.m = "restart" -> NewWatch(s)
                        [] OTHER -> [st EXCEPT !.match = <<>>, !.lost = <<>>]
      row(x, st) == [m |-> x.m, b |-> x.b, match |-> st.match, lost |-> st.lost, size |-> Cardinality(x.bs)]
      all == FoldLeft(LAMBDA acc, x : LET st == TLCEval(after(acc.st, x)) IN [st |-> st, rows |-> Append(acc.rows, row(x, st))],
                      [st |-> NewWatch(s), rows |-> <<>>], sent)
  IN  [id |-> s.id, sent |-> all.rows,
       map |-> [b \in 1..Len(s.blocks) |-> SetToSeq(Known(s, b, s.blocks[b].answer))]]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
