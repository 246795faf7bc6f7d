------------------------------- MODULE EvalCli2 ------------------------------
(* Checks recorded runs of the light client: every event must be one the     *)
(* specification allows, given some state it may be in.                      *)
EXTENDS SPCli2, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos

(* states after event e from c; no state: not allowed                        *)
After(u, c, e) ==
  CASE e.ev = "label" -> IF e.ok THEN {AddCode(u, c, e.m)} ELSE {}
    [] e.ev = "node" -> {MoveNode(c, e.b)}
    [] e.ev = "start" -> {Start(c)}
    [] e.ev = "block" -> {Block(u, c, e.b)}
    [] e.ev = "end" ->
         LET b == Balance(u, c.mem)
             shown == ~e.shown \/ Torn(u, c.mem) \/ (e.tip = Top(c.mem.chain) /\ e.total = b.total + b.pending)
         IN  IF e.ok THEN (IF Reached(c) /\ NothingSkipped(u, c.mem) /\ shown THEN {Finish(c)} ELSE {})
             ELSE IF e.injected \/ TooEarly(u, c) THEN Fail(c) ELSE {}
    \* e.tip: where the node says the chain ends, -1: it did not come so far
    [] e.ev = "filters" ->
         IF e.ok THEN (IF e.tip >= 0 THEN {[c EXCEPT !.disk = FilterScan(u, @, e.tip, e.from)]} ELSE {})
         ELSE IF e.injected THEN {[c EXCEPT !.disk = p] : p \in FilterParts(u, c.disk, e.want, e.from)} ELSE {}
    [] e.ev = "balance" -> IF e.ok /\ (e.shows = Balance(u, c.disk) \/ Torn(u, c.disk)) THEN {c} ELSE {}
    [] e.ev = "code" -> IF e.ok THEN {c} ELSE {}
    [] e.ev = "pay" -> IF PaymentOk(u, c.disk, e) \/ Torn(u, c.disk) THEN {c} ELSE {}

RECURSIVE Follows(_, _, _, _)
Follows(u, cs, evs, i) ==
  IF i > Len(evs)
  THEN [bad |-> 0, states |-> <<>>,
        \* the balance it ends with is not the one of the best chain, because of blocks that were replaced
        odd |-> \A c \in cs : c.disk.odd /\ ~SameAsFresh(u, c.disk)]
  ELSE LET n == TLCEval(UNION {After(u, c, evs[i]) : c \in cs})
       IN  IF n # {} THEN Follows(u, n, evs, i + 1)
           ELSE [bad |-> i, odd |-> FALSE,
                 states |-> SetToSeq({[balance |-> Balance(u, c.disk), coins |-> SetToSeq(FileCoins(u, c.disk)),
                                       chain |-> c.disk.chain, scanned |-> c.mem.chain,
                                       tips |-> SetToSeq(c.tips)] : c \in cs})]
Expected(s) ==
  LET u == TLCEval([txs |-> s.txs, blocks |-> s.blocks, rank |-> s.rank, bday |-> s.bday])
      r == Follows(u, {NewCli}, s.events, 1)
  IN  [id |-> s.id, bad |-> r.bad, states |-> r.states, odd |-> r.odd]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
