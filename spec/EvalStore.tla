------------------------------- MODULE EvalStore ------------------------------
(* Checks recorded runs of the wallets and what became of their files: every  *)
(* event must be one the specification allows, given some file there may be.  *)
EXTENDS SPStore, SequencesExt, Json, IOUtils, TLC
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos

(* the lines a scan shows on its way: each the sum of what it had found      *)
LinesOk(u, f, e) == \A i \in 1..Len(e.lines) : e.lines[i].total = Worth(u, Scan(u, f.s, e.lines[i].b))
(* c: the file and, if the last command stored something, the file before    *)
After(u, c, e) ==
  LET f == c.f
      to(S) == {[f |-> g, prev |-> {}] : g \in S}
      wrote(S) == {[f |-> g, prev |-> IF e.ans = "ok" THEN {f} ELSE {}] : g \in S}
      answer == e.ev \in {"killed", "cut", "repaired", "removed"} \/ e.ans \in Answers
      \* what only reads, and what is refused, leaves every byte of the file
      kept == \/ e.ev \in {"killed", "cut", "repaired", "removed"}
              \/ IF e.ev = "balance" THEN e.same ELSE e.ans = "ok" \/ ~e.room \/ e.same
  IN  IF ~answer \/ ~kept THEN {}
      ELSE
      CASE e.ev = "new" -> wrote(Make(f, e.ans, e.room))
        [] e.ev = "label" -> wrote(AddLabel(f, e.m, e.ans, e.room))
        [] e.ev = "scan" -> IF LinesOk(u, f, e) THEN wrote(ScanTo(u, f, e.to, e.ans, e.room, e.said)) ELSE {}
        [] e.ev = "killed" -> IF LinesOk(u, f, e) THEN to(Killed(u, f, e.got, e.said)) ELSE {}
        [] e.ev = "balance" -> {[f |-> g, prev |-> c.prev] : g \in Look(u, f, e.ans, e.total)}
        [] e.ev = "cut" -> to({Cut(p, e.inside) : p \in c.prev})
        [] e.ev = "repaired" -> to({Repair(f)})
        [] e.ev = "removed" -> to({NoFile})

RECURSIVE Follows(_, _, _, _)
Follows(u, cs, evs, i) ==
  IF i > Len(evs) THEN [bad |-> 0, states |-> <<>>]
  ELSE LET n == TLCEval(UNION {After(u, c, evs[i]) : c \in cs})
       IN  IF n # {} THEN Follows(u, n, evs, i + 1)
           ELSE [bad |-> i, states |-> SetToSeq({[st |-> c.f.st, tip |-> c.f.s.tip, labels |-> SetToSeq(c.f.s.labels), worth |-> Worth(u, c.f.s)] : c \in cs})]
Expected(s) ==
  LET r == Follows([n |-> s.n, pays |-> s.pays], {[f |-> NoFile, prev |-> {}]}, s.events, 1)
  IN  [id |-> s.id, bad |-> r.bad, states |-> r.states]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
