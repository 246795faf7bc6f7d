------------------------------- MODULE EvalKeys -------------------------------
(* Checks what the programs printed and did, with their keys made symbolic,    *)
(* against the specification.                                                  *)
EXTENDS SPKeys, SequencesExt, Json, IOUtils, TLC
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos

(* what generate prints: four descriptors of one new seed                      *)
Part(net, seed, p) ==
  /\ p.key = KeyFor(seed, p.role, net)
  /\ p.secret = (p.kind = "private") /\ p.tr
  /\ p.main = (net = "bitcoin")
GoodSet(c, e) ==
  LET seed == e.parts[1].key.seed
  IN  /\ seed # 0 /\ \A i \in 1..Len(c.m) : c.m[i].seed # seed
      /\ {<<e.parts[i].role, e.parts[i].kind>> : i \in 1..Len(e.parts)} = {"scan", "spend"} \X {"private", "public"}
      /\ \A i \in 1..Len(e.parts) : Part(e.net, seed, e.parts[i])
GoodMaster(c, e) ==
  /\ e.key.seed # 0 /\ e.key.path = <<>> /\ e.main = (e.net = "bitcoin")
  /\ \A i \in 1..Len(c.m) : c.m[i].seed # e.key.seed
(* c: the sets made, the wallets                                               *)
Ok(c, e) ==
  CASE e.ev = "generate" -> e.ans = "ok" /\ GoodSet(c, e)
    [] e.ev = "create" -> IF c.w2.there THEN e.ans = "no" ELSE e.ans = "ok" /\ GoodMaster(c, e)
    [] e.ev = "init" -> e.ans \in InitMay(c.w, e.ds, e.dp)
    [] e.ev = "code" -> IF c.w.there THEN e.ans = "ok" /\ e.code = CodeOf(c.w) ELSE e.ans = "no"
    [] e.ev = "code2" -> IF c.w2.there THEN e.ans = "ok" /\ e.code = CodeOf(c.w2) ELSE e.ans = "no"
    [] e.ev = "label" -> e.ans \in LabelMay(c.m, c.w, e.ds) /\ (e.ans = "ok" => e.code = LabelOf(c.w, e.x))
    [] e.ev = "label2" -> IF c.w2.there THEN e.ans = "ok" /\ e.code = LabelOf(c.w2, e.x) ELSE e.ans = "no"
    [] e.ev = "scan" -> e.ans \in ScanMay(c.m, c.w, e.ds, e.code)
    [] e.ev = "birthday2" -> IF c.w2.there THEN e.ans = "ok" /\ e.height = c.born[1] /\ e.hash = c.born[2] ELSE e.ans = "no"
    [] e.ev = "all" -> Cardinality(ToSet(e.masters)) = Len(e.masters)
(* what was refused, and what only shows, changes no byte of a file            *)
Kept(e) == e.ev = "all" \/ (e.ans = "no" \/ e.ev \in {"code", "code2", "birthday2", "generate"} => e.same)
Then(c, e) ==
  CASE e.ev = "generate" -> [c EXCEPT !.m = Append(@, [seed |-> e.parts[1].key.seed, net |-> e.net])]
    [] e.ev = "create" /\ e.ans = "ok" ->
         [c EXCEPT !.m = Append(@, [seed |-> e.key.seed, net |-> e.net]), !.born = <<e.height, e.hash>>,
                   !.w2 = Wallet(KeyFor(e.key.seed, "scan", e.net), KeyFor(e.key.seed, "spend", e.net), e.net)]
    [] e.ev = "init" -> [c EXCEPT !.w = Inited(c.m, @, e.ds, e.dp, e.net, e.ans)]
    [] OTHER -> c
RECURSIVE Follow(_, _, _)
Follow(c, evs, i) ==
  IF i > Len(evs) THEN [bad |-> 0, state |-> c]
  ELSE IF Kept(evs[i]) /\ Ok(c, evs[i]) THEN Follow(TLCEval(Then(c, evs[i])), evs, i + 1)
  ELSE [bad |-> i, state |-> c]
Expected(s) ==
  LET r == Follow([m |-> <<>>, w |-> NoWallet, w2 |-> NoWallet, born |-> <<0, "">>], s.events, 1)
  IN  [id |-> s.id, bad |-> r.bad, m |-> r.state.m, w |-> [r.state.w EXCEPT !.labels = <<>>], w2 |-> [r.state.w2 EXCEPT !.labels = <<>>]]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
