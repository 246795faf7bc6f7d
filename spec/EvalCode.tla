------------------------------ MODULE EvalCode ------------------------------
(* Decides for each line of the scenario file what parsing the string (or  *)
(* encoding the code) must give.                                           *)
EXTENDS SPCode, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
Expected(s) ==
  IF s.t = "enc" THEN [id |-> s.id, s |-> Encode(s.family, s.version, s.payload)]
  ELSE [id |-> s.id] @@ Decode(s.s, 66)
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
