------------------------------- MODULE EvalCli -------------------------------
(* Checks recorded runs of the command line wallet: every event must be one  *)
(* the specification allows, given some state it may be in.                  *)
EXTENDS SPCli, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos

(* states after event e from c; no state: not allowed                        *)
After(u, c, e) ==
  CASE e.ev = "label" -> IF e.ok THEN {AddCode(c, e.m)} ELSE {}
    [] e.ev = "node" -> {MoveNode(c, e.b)}
    [] e.ev = "start" -> {Start(c)}
    [] e.ev = "block" -> {Block(u, c, e.b)}
    [] e.ev = "end" ->
         LET last == IF c.mem.chain = <<>> THEN 0 ELSE c.mem.chain[Len(c.mem.chain)]
             b == Balance(u, c.mem)
             shown == ~e.shown \/ (e.tip = last /\ e.total = b.total + b.pending)
         IN  IF e.ok THEN (IF Reached(c) /\ NothingSkipped(c) /\ shown THEN {Finish(c)} ELSE {})
             ELSE IF e.injected THEN Fail(c) ELSE {}
    [] e.ev = "balance" -> IF e.ok /\ e.shows = Balance(u, c.disk) THEN {c} ELSE {}
    [] e.ev = "code" -> IF e.ok THEN {c} ELSE {}
    [] e.ev = "sign" -> IF SignOk(e) THEN {c} ELSE {}
    [] e.ev = "pay" -> IF PaymentOk(u, c.disk, e) THEN {c} ELSE {}

RECURSIVE Follows(_, _, _, _)
Follows(u, cs, evs, i) ==
  IF i > Len(evs) THEN [bad |-> 0, states |-> <<>>]
  ELSE LET n == TLCEval(UNION {After(u, c, evs[i]) : c \in cs})
       IN  IF n # {} THEN Follows(u, n, evs, i + 1)
           ELSE [bad |-> i,
                 states |-> SetToSeq({[balance |-> Balance(u, c.disk), coins |-> SetToSeq(FileCoins(u, c.disk)),
                                       chain |-> c.disk.chain, scanned |-> c.mem.chain,
                                       tips |-> SetToSeq(c.tips)] : c \in cs})]
Expected(s) ==
  LET u == TLCEval([txs |-> s.txs, blocks |-> s.blocks, rank |-> s.rank])
      r == Follows(u, {NewCli}, s.events, 1)
  IN  [id |-> s.id, bad |-> r.bad, states |-> r.states]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
