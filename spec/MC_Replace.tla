------------------------------ MODULE MC_Replace ------------------------------
(* Every request with up to two inputs and two outputs, worked on input by   *)
(* input: an output is only replaced when the recipient will find it, and    *)
(* nothing is refused that can be done.                                      *)
EXTENDS SPReplace, Json, TLC
CONSTANTS MaxIns, Wide
Kinds == {"tr", "trtree", "wpkh", "sh", "pkh", "wsh", "ms", "fut"}
Ders == {"own", "both", "other", "none", "wrong"}
InsOf(key) == [kind : Kinds, der : Ders, utxo : {"wit", "nonwit"}, key : {key}]
                \cup [kind : {"tr", "wsh"}, der : {"own", "none"}, utxo : {"none", "short"}, key : {key}]
Ins == InsOf(1)
(* the second input may spend an output of the same address *)
Pairs == {<<i, j>> : i \in Ins, j \in InsOf(2)} \cup {<<i, j>> \in Ins \X Ins : i.kind = j.kind /\ i.der = j.der}
Outs == [v : {1, 2}, tr : BOOLEAN, s : {1, 2}]
Good == [v |-> 1, tr |-> TRUE, s |-> 1]
OutLists == {<<o>> : o \in Outs} \cup {<<a, b>> : a \in Outs, b \in Outs}
Real(outs) == \A i, j \in 1..Len(outs) : outs[i].s = outs[j].s => outs[i].tr = outs[j].tr
Descs == {"own", "env", "multi", "wif", "other", "pub", "junk", "none"}
FewOuts == {<<Good>>, <<[Good EXCEPT !.v = 2], Good>>, <<Good, [Good EXCEPT !.s = 2]>>}
Requests ==
  [ins : {<<i>> : i \in Ins}, outs : {o \in OutLists : Real(o)}, code : {TRUE}, psbt : {TRUE}, desc : {"own"}]
   \cup [ins : {<<i>> : i \in {j \in Ins : j.utxo = "wit"}}, outs : {<<Good>>}, code : BOOLEAN, psbt : BOOLEAN, desc : Descs]
   \cup (IF MaxIns < 2 THEN {} ELSE [ins : Pairs, outs : IF Wide THEN FewOuts ELSE {<<Good>>}, code : {TRUE}, psbt : {TRUE}, desc : {"own"}])
VARIABLES p, w
Init == p \in Requests /\ w = NewWork(p)
Next == w.st = "run" /\ w' = Work(p, w) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, w>> /\ WF_<<p, w>>(Next)

Found == w.st = "done" => Findable(p, w.summed, w.ops) /\ ~MustRefuse(p)
NotNeedless == w.st = "refused" => ~MustAccept(p)
Replaced ==
  w.st = "done" =>
    RightOutputs(p, [o \in 1..Len(p.outs) |-> [v |-> p.outs[o].v, who |-> IF o = w.out THEN "recipient" ELSE "same"]])
(* whatever an answer may be, it is never both required and forbidden *)
Sane == ~(MustAccept(p) /\ MustRefuse(p))
Ends == <>(w.st # "run")
Emit == w # NewWork(p) \/ PrintT("OUT " \o ToJson(p))
=============================================================================
