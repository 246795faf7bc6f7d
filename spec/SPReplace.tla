------------------------------ MODULE SPReplace ------------------------------
(* Turning an output of a transaction that is about to be signed into a      *)
(* silent payment ("to-silent-payment" of the command line wallet).          *)
(*                                                                           *)
(* A request p is [ins, outs, code, psbt, desc]: inputs [kind, der, utxo,    *)
(* key], outputs [v, tr, s] (amount, whether it is a taproot output, name of *)
(* the script), whether code and transaction can be read, and the keys       *)
(* given.  The requested amount is 1.                                        *)
(*   desc "own" the extended key the paths start at, "env" the same, in the  *)
(*        environment; "multi" the same with several paths; "wif" a plain    *)
(*        key; "other" another extended key; "pub" without the private key;  *)
(*        "junk" unreadable; "none" nothing given                            *)
(*   kind "tr"     taproot output without scripts    "trtree" with scripts   *)
(*        "wpkh" "sh" (nested) "pkh"                 one key each            *)
(*        "wsh" "ms"  several keys (native, p2sh)    "fut" unknown version   *)
(*   der  "own"  a path of the descriptor's key      "both" besides others   *)
(*        "other" paths of other keys only  "none" none                      *)
(*        "wrong" a path of the descriptor's key that is not the input's     *)
(*   utxo "wit" the output spent, "nonwit" the whole transaction, "none",    *)
(*        "short" a transaction without such an output                       *)
(*   key  inputs of the same kind and key spend outputs of the same address  *)
EXTENDS Integers, Sequences, FiniteSets

Amount == 1
Readable(p) == p.code /\ p.psbt
HasKeys(p) == p.desc \in {"own", "env"}
MayHaveKeys(p) == HasKeys(p) \/ p.desc = "multi"
Known(i) == i.utxo \in {"wit", "nonwit"}
HasPath(i) == i.der \in {"own", "both", "wrong"}
(* the secret derived from the path is the one the recipient counts with     *)
GoodKey(i) == i.der \in {"own", "both"} /\ i.kind \in {"tr", "wpkh", "sh", "pkh"}

----------------------------------------------------------------------------
(* What the recipient does with the transaction once it is signed            *)
Counts(i) == i.kind \in {"tr", "trtree", "wpkh", "sh", "pkh"}
Counted(p) == {n \in 1..Len(p.ins) : Counts(p.ins[n])}
Skipped(p) == \E n \in 1..Len(p.ins) : p.ins[n].kind = "fut"

(* how often each key is in the sum over the inputs S                        *)
Keys(p) == {<<p.ins[n].kind, p.ins[n].key>> : n \in 1..Len(p.ins)}
Sum(p, S) == [k \in Keys(p) |-> Cardinality({n \in S : <<p.ins[n].kind, p.ins[n].key>> = k})]

(* Found by the recipient: the keys of all inputs that count and no other    *)
(* were summed, once per input, and all outpoints were looked at.            *)
Findable(p, summed, ops) ==
  /\ ~Skipped(p) /\ Counted(p) # {}
  /\ summed = Sum(p, Counted(p)) /\ (\A n \in Counted(p) : GoodKey(p.ins[n]))
  /\ ops = 1..Len(p.ins)

----------------------------------------------------------------------------
(* The command, one input at a time                                          *)
Fits(p) == {o \in 1..Len(p.outs) : p.outs[o].v = Amount}
NewWork(p) == [st |-> "run", pos |-> 1, summed |-> Sum(p, {}), ops |-> {}, out |-> 0]
Refuse(w) == [w EXCEPT !.st = "refused"]
(* the sender looks at the script only: p2sh may be a nested key             *)
MayCount(kind) == Counts([kind |-> kind]) \/ kind = "ms"
Look(p, w) ==
  LET i == p.ins[w.pos]
  IN  IF ~MayHaveKeys(p) \/ ~p.psbt \/ ~Known(i) \/ ~HasPath(i) \/ i.kind = "fut" \/ (MayCount(i.kind) /\ ~GoodKey(i)) THEN Refuse(w)
      ELSE [w EXCEPT !.pos = @ + 1, !.ops = @ \cup {w.pos},
                     !.summed = IF MayCount(i.kind) THEN [@ EXCEPT ![<<i.kind, i.key>>] = @ + 1] ELSE @]
Put(p, w) ==
  IF w.summed = Sum(p, {}) \/ Cardinality(Fits(p)) # 1 \/ ~p.code THEN Refuse(w)
  ELSE LET o == CHOOSE o \in Fits(p) : TRUE
       IN  IF ~p.outs[o].tr THEN Refuse(w) ELSE [w EXCEPT !.st = "done", !.out = o]
Work(p, w) == IF w.pos <= Len(p.ins) THEN Look(p, w) ELSE Put(p, w)

----------------------------------------------------------------------------
(* What is required of an answer                                             *)
MustRefuse(p) ==
  \/ ~Readable(p) \/ ~MayHaveKeys(p)
  \/ \A o \in Fits(p) : ~p.outs[o].tr
  \/ Skipped(p) \/ Counted(p) = {}
  \/ \E n \in 1..Len(p.ins) : ~Known(p.ins[n]) \/ (Counts(p.ins[n]) /\ ~GoodKey(p.ins[n]))
MustAccept(p) ==
  /\ ~MustRefuse(p) /\ HasKeys(p)
  /\ Cardinality(Fits(p)) = 1
  /\ \A n \in 1..Len(p.ins) : HasPath(p.ins[n]) /\ p.ins[n].kind # "ms"

(* outs: for each output its amount and whose script it has now              *)
RightOutputs(p, outs) ==
  /\ Len(outs) = Len(p.outs)
  /\ \A o \in 1..Len(outs) : outs[o].v = p.outs[o].v
  /\ \E o \in Fits(p) : /\ p.outs[o].tr /\ outs[o].who = "recipient"
                        /\ \A x \in 1..Len(outs) \ {o} : outs[x].who = "same"
AnswerOk(p, a) ==
  CASE a.how = "ok" -> /\ ~MustRefuse(p) /\ RightOutputs(p, a.outs)
                       /\ a.rest /\ a.fee = a.paid - a.got
    [] a.how = "refused" -> ~MustAccept(p)
    [] OTHER -> FALSE
=============================================================================
