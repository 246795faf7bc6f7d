------------------------------ MODULE EvalIndex ------------------------------
(* For each history of the scenario file, what the indexer holds after every *)
(* step.  Checks that the state can be rebuilt from the change sets, that    *)
(* repeating a step changes nothing and that the graph holds what it should. *)
EXTENDS SPIndex, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
RECURSIVE States(_, _, _)
States(u, st, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET n == TLCEval(Step(u, st, Head(ops))) IN <<n>> \o States(u, n, Tail(ops))
Expected(s) ==
  LET u == TLCEval([txs |-> s.txs, blocks |-> s.blocks])
      sts == TLCEval(States(u, EmptyIndex, s.ops))
      prev(i) == IF i = 1 THEN EmptyIndex ELSE sts[i - 1]
      merged == FoldLeft(LAMBDA a, i : Merged(a, Changes(prev(i), sts[i])), EmptyIndex, [i \in 1..Len(sts) |-> i])
      ok == \A i \in 1..Len(sts) :
              /\ Step(u, sts[i], s.ops[i]) = sts[i]
              /\ Indexed(u, prev(i)) \subseteq Indexed(u, sts[i])
              /\ sts[i].known \subseteq sts[i].gtxs
              /\ sts[Len(sts)] = merged
  IN  IF ~ok THEN Assert(FALSE, <<"specification property fails on scenario", s.id>>)
      ELSE [id |-> s.id, states |-> [i \in 1..Len(sts) |-> View(u, sts[i])]]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
