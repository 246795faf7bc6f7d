------------------------------ MODULE EvalPsbt ------------------------------
(* For each partially signed transaction of the scenario file: the result   *)
(* of deriving and of signing.  Checks that a successful derivation uses    *)
(* the secret the receivers will compute, and that they find the payments.  *)
EXTENDS SPPsbt, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
Signed(a, neg) == IF neg THEN Neg(Atom(a)) ELSE Atom(a)
Elems(seq) == {seq[i] : i \in 1..Len(seq)}
Expected(s) ==
  LET keys == TLCEval([n \in DOMAIN s.keys |-> KeyPolyOf(s.keys[n])])
      W == TLCEval([wi \in 1..Len(s.wallets) |->
             [b |-> Signed(s.wallets[wi].scan, s.wallets[wi].scanneg),
              s |-> Signed(s.wallets[wi].spend, s.wallets[wi].spendneg)]])
      code == TLCEval([c \in 1..Len(s.codes) |->
             [b |-> W[s.codes[c].w].b, s |-> W[s.codes[c].w].s, label |-> s.codes[c].label]])
      phs == [o \in 1..Len(s.outs) |-> IF s.outs[o].t = "ph" THEN s.outs[o].c ELSE 0]
      d == TLCEval(Derive(s.keys, keys, s.inputs, code, s.recips, phs))
      tw == TLCEval(TweakOf(keys, s.inputs))
      tab(wi) == LabelTable(W[wi], Elems(s.wallets[wi].labels))
      scans == TLCEval([wi \in 1..Len(W) |->
                 IF d.res \in {"err", "free"} THEN {} ELSE Scans(W[wi], tab(wi), Mul(tw.secret, W[wi].b), d.outs, <<>>, 0)])
      owed(wi) == {o \in 1..Len(s.outs) : phs[o] # 0 /\ d.outs[o] # Zero /\ s.codes[phs[o]].w = wi}
      ok == \/ d.res \in {"err", "free"}
            \/ /\ tw.status = "ok" /\ tw.secret = d.secret
               /\ \A wi \in 1..Len(W) : \A f \in scans[wi] :
                    {<<f[i].out, f[i].label>> : i \in 1..Len(f)} = {<<o, s.codes[phs[o]].label>> : o \in owed(wi)}
  IN  IF ~ok THEN Assert(FALSE, <<"specification property fails on scenario", s.id>>)
      ELSE [id |-> s.id, res |-> d.res, why |-> d.why,
            codes |-> [c \in 1..Len(code) |-> <<Ser(code[c].b), Ser(LabelledSpend(code[c], s.codes[c].label))>>],
            outs |-> [o \in 1..Len(d.outs) |-> IF d.outs[o] = Zero THEN "" ELSE XB(d.outs[o])],
            owed |-> IF d.res \in {"err", "free"} THEN <<>> ELSE
                     [wi \in 1..Len(W) |-> SetToSeq({<<o, s.codes[phs[o]].label>> : o \in owed(wi)})],
            signed |-> SetToSeq(Signable(keys, s.inputs))]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
