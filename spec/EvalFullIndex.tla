---------------------------- MODULE EvalFullIndex ----------------------------
(* For each history of the scenario file, what the full-node indexer holds   *)
(* and returns at every step.                                                *)
EXTENDS SPFullIndex, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
RECURSIVE States(_, _, _)
States(u, st, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET n == TLCEval(FullStep(u, st, Head(ops))) IN <<n>> \o States(u, n, Tail(ops))
Expected(s) ==
  LET u == TLCEval([txs |-> s.txs, blocks |-> s.blocks])
      sts == TLCEval(States(u, EmptyFull, s.ops))
      prev(i) == IF i = 1 THEN EmptyFull ELSE sts[i - 1]
      ok == \A i \in 1..Len(sts) :
              /\ FullStep(u, sts[i], s.ops[i]) = sts[i]
              /\ sts[i].known = sts[i].full
              /\ {x[1] : x \in sts[i].idx} = sts[i].known
              /\ \A t \in sts[i].known : \A o \in Elems(u.txs[t].ins) : o \in sts[i].float \/ o[1] \in sts[i].full
              /\ prev(i).idx \subseteq sts[i].idx
  IN  IF ~ok THEN Assert(FALSE, <<"specification property fails on scenario", s.id>>)
      ELSE [id |-> s.id, states |-> [i \in 1..Len(sts) |-> FullView(u, prev(i), sts[i])]]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
