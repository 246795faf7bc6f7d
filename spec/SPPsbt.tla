------------------------------- MODULE SPPsbt -------------------------------
(* Silent payments in partially signed transactions.                       *)
(*                                                                         *)
(* An input is [op, bytes, spk, ss, wit] (script signature and witness it  *)
(* is published with) plus what the partially signed transaction holds:    *)
(*   utxo     "wit", "non", "both", "none" or "index" (previous            *)
(*            transaction without that output)                             *)
(*   finss, finwit  whether the final script signature / witness are set   *)
(*   mr       name of the merkle root, or ""                               *)
(*   origins  sequence of [bip, direct]: the secret the key provider        *)
(*            answers with when asked by derivation path / by public key:  *)
(*            a key name, "none" or "err"                                  *)
(*   records  sequence of [spend, tweak, have, as]: spend key (key name or  *)
(*            "junk"), tweak atom ("short", "big": not a scalar; "zero";   *)
(*            "minus": cancels the spend key), whether the provider has    *)
(*            the spend secret, and under which name it is stored: "" for  *)
(*            the record's own, else another prefix or type (no record)    *)
(*   sig      a key path signature is already present                      *)
EXTENDS SPProto

PrevKnown(i) == i.utxo \in {"wit", "non", "both"}
GoodRecord(r) == r.as = "" /\ r.spend # "junk" /\ r.tweak \notin {"short", "big"}
RecordKey(keys, r) ==
  Add(keys[r.spend], IF r.tweak = "zero" THEN Zero ELSE IF r.tweak = "minus" THEN Neg(keys[r.spend]) ELSE Atom(r.tweak))
(* records that open the spent output and whose spend secret is provided   *)
Opening(keys, i) ==
  {k \in 1..Len(i.records) :
     LET r == i.records[k]
     IN  /\ GoodRecord(r) /\ r.have = "yes"
         /\ i.utxo \in {"wit", "both"}
         /\ IsP2TR(i.spk) /\ Len(i.spk) = 3 /\ K(i.spk[3]) = "x"
         /\ RecordKey(keys, r) # Zero
         /\ SameX(RecordKey(keys, r), keys[R(i.spk[3])])}
RecordSecret(keys, i) == RecordKey(keys, i.records[CHOOSE x \in Opening(keys, i) : TRUE])

(* the secret a provided key stands for: taproot origins give the internal *)
(* key, which is tweaked with the merkle root the psbt states               *)
FromOrigin(descr, kind, name, mr) ==
  IF kind = "tr"
  THEN KeyPolyOf([base |-> descr[name].base, neg |-> descr[name].neg,
                  tweak |-> IF mr = "" THEN "tap" ELSE "taproot", arg |-> mr])
  ELSE KeyPolyOf(descr[name])
Judge(descr, keys, i, kind, own, o) ==
  LET ask == IF o.bip \notin {"none", "err"} THEN o.bip ELSE o.direct
  IN  IF ask = "none" THEN "none"
      ELSE IF ask = "err" THEN "err"
      ELSE LET p == FromOrigin(descr, kind, ask, i.mr)
           IN  IF (kind = "tr" /\ SameX(p, keys[own])) \/ (kind # "tr" /\ p = keys[own])
               THEN "right" ELSE "wrong"

(* What one input adds: [st, kind, p]; st is "skip" (not eligible), "ok",   *)
(* "any" (depends on the order in which the provider is asked), "malformed" *)
(* (no valid input of a known key is like that) or an error                   *)
Input(descr, keys, i) ==
  LET no(st) == [st |-> st, kind |-> "none", p |-> Zero]
      txin == InputKey(i.spk, IF i.finss THEN i.ss ELSE <<>>, IF i.finwit THEN i.wit ELSE <<>>)
      js == {Judge(descr, keys, i, txin.kind, txin.key, i.origins[k]) : k \in 1..Len(i.origins)} \ {"none"}
      own == [st |-> "ok", kind |-> txin.kind, p |-> keys[txin.key]]
  IN  IF ~PrevKnown(i) THEN no("prevout")
      ELSE IF IsFutureWitness(i.spk) THEN no("future")
      ELSE IF Opening(keys, i) # {} /\ (i.finss \/ i.finwit) /\ txin.key \in {NoKey, AnyKey} THEN no("malformed")
      ELSE IF Opening(keys, i) # {} THEN [st |-> "ok", kind |-> "tr", p |-> RecordSecret(keys, i)]
      ELSE IF ~i.finss /\ ~i.finwit THEN no("witness")
      ELSE IF txin.key = NoKey THEN no("skip")
      ELSE IF txin.key = AnyKey THEN no("malformed")
      ELSE IF js = {} THEN no("missing")
      ELSE IF "right" \notin js THEN no("mismatch")
      ELSE IF js = {"right"} THEN own
      ELSE [own EXCEPT !.st = "any"]

(* The whole derivation.  codes are the listed recipients with repetitions  *)
(* (indexes into ids, the distinct codes), outs the placeholders: the id of *)
(* the code an output is a placeholder of, or 0.                            *)
Count(seq, x) == Cardinality({j \in 1..Len(seq) : seq[j] = x})
Derive(descr, keys, ins, code, recips, outs) ==
  LET r == TLCEval([j \in 1..Len(ins) |-> Input(descr, keys, ins[j])])
      bad == {j \in 1..Len(ins) : r[j].st \notin {"ok", "any", "skip", "malformed"}}
      use == SelectSeq(r, LAMBDA x : x.st \in {"ok", "any"})
      a == Sum([j \in 1..Len(use) |-> Contribution(use[j].kind, use[j].p)])
      paid == SelectSeq(recips, LAMBDA c : Count(outs, c) > 0)
      fits == \A j \in 1..Len(paid) : Count(paid, paid[j]) = Count(outs, paid[j])
      secret == PartialSecret(MinOpOf(ins), a)
      derived == TLCEval(Payments(secret, [j \in 1..Len(paid) |-> code[paid[j]]]))
      (* the n-th output of a code receives its n-th derived key *)
      nth(o) == CHOOSE j \in 1..Len(paid) :
                  paid[j] = outs[o] /\ Count(SubSeq(paid, 1, j), outs[o]) = Count(SubSeq(outs, 1, o), outs[o])
      fail(why) == [res |-> "err", why |-> why, secret |-> Zero, outs |-> <<>>]
  IN  IF bad # {} THEN fail(r[CHOOSE j \in bad : TRUE].st)
      ELSE IF \E j \in 1..Len(r) : r[j].st = "malformed" THEN [fail("malformed") EXCEPT !.res = "free"]
      ELSE IF use = <<>> THEN fail("noeligible")
      ELSE IF a = Zero THEN fail("zero")
      ELSE IF ~fits THEN fail("counts")
      ELSE [res |-> IF \E j \in 1..Len(r) : r[j].st = "any" THEN "any" ELSE "ok", why |-> "",
            secret |-> secret,
            outs |-> [o \in 1..Len(outs) |->
                        IF outs[o] # 0 /\ Count(paid, outs[o]) > 0 THEN derived[nth(o)] ELSE Zero]]

(* the inputs that signing must sign *)
Signable(keys, ins) ==
  {j \in 1..Len(ins) : /\ ~ins[j].sig /\ Opening(keys, ins[j]) # {}
                       /\ \A k \in 1..Len(ins) : PrevKnown(ins[k])}
=============================================================================
