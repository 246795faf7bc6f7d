----------------------------- MODULE EvalWallet -----------------------------
(* For each history of the scenario file, what the wallet holds and shows    *)
(* after every step; the properties of the specification are checked on each *)
(* state on the way.                                                         *)
EXTENDS SPWallet, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
RECURSIVE States(_, _, _)
States(u, w, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET n == TLCEval(WStep(u, w, Head(ops))) IN <<n>> \o States(u, n, Tail(ops))
Expected(s) ==
  LET u == TLCEval([txs |-> s.txs, blocks |-> s.blocks, rank |-> s.rank])
      sts == TLCEval(States(u, NewWallet, s.ops))
      ok == \A i \in 1..Len(sts) :
              CanonConsistent(u, sts[i]) /\ BestWins(u, sts[i]) /\ NothingLost(u, sts[i]) /\ StoreIsPast(u, sts[i])
  IN  IF ~ok THEN Assert(FALSE, <<"specification property fails on scenario", s.id>>)
      ELSE [id |-> s.id, states |-> [i \in 1..Len(sts) |-> WView(u, sts[i])]]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
