----------------------------- MODULE EvalReplace -----------------------------
(* Checks recorded answers of the command: each must be one the              *)
(* specification allows for its request.                                     *)
EXTENDS SPReplace, Json, IOUtils, TLC
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
Expected(s) == [id |-> s.id, ok |-> AnswerOk(s.p, s.a),
                want |-> IF MustAccept(s.p) THEN "a payment" ELSE IF MustRefuse(s.p) THEN "a refusal" ELSE "a payment or a refusal"]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
