------------------------------ MODULE EvalProto -----------------------------
(* Evaluates the protocol specification on scenarios read from a file (one *)
(* JSON object per line, file name in environment variable SCN): checks    *)
(* the properties of the specification on each of them and prints what the *)
(* implementation must produce.  One state per scenario.                   *)
EXTENDS SPProto, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos

KeyMap(s) == [n \in DOMAIN s.keys |-> KeyPolyOf(s.keys[n])]
Signed(a, neg) == IF neg THEN Neg(Atom(a)) ELSE Atom(a)
Wal(d) == [b |-> Signed(d.scan, d.scanneg), s |-> Signed(d.spend, d.spendneg)]
CodeOf(s, p) == LET w == Wal(s.wallets[p.w]) IN [b |-> w.b, s |-> w.s, label |-> p.label]
Elems(seq) == {seq[i] : i \in 1..Len(seq)}

OutKey(s, keys, secret, derived, o) ==
  CASE o.t = "pay"  -> derived[o.i]
    [] o.t = "slot" -> LET w == Wal(s.wallets[o.w])
                       IN Add(LabelledSpend(w, o.label), SharedTweak(Mul(secret, w.b), o.k))
    [] o.t = "near" -> NearPay(secret, Wal(s.wallets[o.w]), o.k, o.m1, o.m2, o.c)
    [] o.t = "key"  -> keys[o.key]
    [] OTHER -> Zero

RenderReport(r) == [out |-> r.out, k |-> r.k, label |-> r.label, tweak |-> SkB(r.tweak)]
RenderScan(f) == [i \in 1..Len(f) |-> RenderReport(f[i])]

(* the properties of the specification on one scenario *)
Sound(w, f, outs, labels) ==
  /\ \A i \in 1..Len(f) : Controls(w, f[i], outs) /\ f[i].k = i - 1 /\ f[i].label \in labels \cup {""}
  /\ \A i, j \in 1..Len(f) : i # j => f[i].out # f[j].out
Honest(s) ==
  /\ \A i \in 1..Len(s.outs) : s.outs[i].t \notin {"slot", "near"} /\ s.outs[i].t # "dup"
  /\ \A i, j \in 1..Len(s.wallets) : i # j => Wal(s.wallets[i]).b # Wal(s.wallets[j]).b
Agree(s, wi, f, labels) ==
  (\A i \in 1..Len(s.pays) : s.pays[i].w = wi => s.pays[i].label \in labels \cup {""}
                                         /\ \E o \in 1..Len(s.outs) : s.outs[o].t = "pay" /\ s.outs[o].i = i)
  => {<<f[i].out, f[i].label>> : i \in 1..Len(f)}
     = {<<o, s.pays[s.outs[o].i].label>> : o \in {q \in 1..Len(s.outs) : s.outs[q].t = "pay" /\ s.pays[s.outs[q].i].w = wi}}

Expected(s) ==
  LET keys == TLCEval(KeyMap(s))
      tw == TLCEval(TweakOf(keys, s.inputs))
      elig == TLCEval([i \in 1..Len(s.inputs) |-> InputKey(s.inputs[i].spk, s.inputs[i].ss, s.inputs[i].wit)])
      sender == TLCEval(IF s.skeys = <<>> /\ tw.status \in {"ok", "zero"} THEN tw
                        ELSE LET minop == IF s.inputs = <<>> THEN "" ELSE MinOpOf(s.inputs)
                             IN IF "hd" \in DOMAIN s THEN HdSecret(keys, s.skeys, minop) ELSE SenderSecret(keys, s.skeys, minop))
      codes == TLCEval([i \in 1..Len(s.pays) |-> CodeOf(s, s.pays[i])])
      derived == TLCEval(IF sender.status = "ok" THEN Payments(sender.secret, codes) ELSE <<>>)
      raw == TLCEval([i \in 1..Len(s.outs) |->
                        IF tw.status # "ok" /\ s.outs[i].t \in {"pay", "slot", "near"} THEN Zero
                        ELSE OutKey(s, keys, tw.secret, derived, s.outs[i])])
      outs == TLCEval([i \in 1..Len(s.outs) |-> IF s.outs[i].t = "dup" THEN raw[s.outs[i].i] ELSE raw[i]])
      W == TLCEval([wi \in 1..Len(s.wallets) |-> Wal(s.wallets[wi])])
      tab == TLCEval([wi \in 1..Len(s.wallets) |-> LabelTable(W[wi], Elems(s.wallets[wi].labels))])
      ecdh == TLCEval([wi \in 1..Len(s.wallets) |-> Mul(tw.secret, W[wi].b)])
      scans == TLCEval([wi \in 1..Len(s.wallets) |->
                 IF tw.status # "ok" THEN {} ELSE Scans(W[wi], tab[wi], ecdh[wi], outs, <<>>, 0)])
      light(wi) == [k \in 1..s.light |-> SetToSeq({XB(q) : q \in LightKeys(W[wi], tab[wi], ecdh[wi], k - 1)})]
      ok == \A wi \in 1..Len(s.wallets) : \A f \in scans[wi] :
               /\ Sound(W[wi], f, outs, Elems(s.wallets[wi].labels))
               /\ (tw.status = "ok" /\ Honest(s)) => Agree(s, wi, f, Elems(s.wallets[wi].labels))
  IN  IF ~ok THEN Assert(FALSE, <<"specification property fails on scenario", s.id>>)
      ELSE [id |-> s.id, status |-> tw.status, elig |-> elig,
            secret |-> IF tw.status = "ok" THEN SkB(tw.secret) ELSE "",
            sstatus |-> sender.status,
            ssecret |-> IF sender.status = "ok" THEN SkB(sender.secret) ELSE "",
            derived |-> [i \in 1..Len(derived) |-> XB(derived[i])],
            ks |-> IF sender.status = "ok" THEN [i \in 1..Len(s.pays) |-> KIndex(codes, i)] ELSE <<>>,
            outs |-> [i \in 1..Len(outs) |-> IF outs[i] = Zero THEN "" ELSE XB(outs[i])],
            codes |-> [i \in 1..Len(s.pays) |-> <<Ser(codes[i].b), Ser(LabelledSpend(codes[i], s.pays[i].label))>>],
            scans |-> [wi \in 1..Len(s.wallets) |-> SetToSeq({RenderScan(f) : f \in scans[wi]})],
            light |-> IF tw.status = "ok" THEN [wi \in 1..Len(s.wallets) |-> light(wi)] ELSE <<>>]

Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
