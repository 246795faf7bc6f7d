---------------------------- MODULE MC_SendScan ----------------------------
(* Sender and receivers as a state machine: a sender collects inputs and   *)
(* recipients, derives outputs, places them in any order among decoys, and *)
(* every wallet scans step by step.  TLC explores all runs for the small   *)
(* constants below.                                                        *)
EXTENDS SPProto
CONSTANTS MaxIns, MaxPays, MaxDecoys, UseCatalogue

Keys == "ka" :> Atom("a1") @@ "kan" :> Neg(Atom("a1")) @@ "kb" :> Atom("a2")
     @@ "kt" :> KeyPolyOf([base |-> "a3", neg |-> TRUE, tweak |-> "tap", arg |-> ""])
Byte(h) == <<1, "b", h>>
TrSpk(k) == <<Byte("51"), Byte("20"), <<32, "x", k>>>>
WpkhSpk(k) == <<Byte("00"), Byte("14"), <<20, "h160pk", k>>>>
Sig == <<<<64, "j", "sig">>>>
Pk(k) == <<<<33, "pk", k>>>>
Tr(k)   == [spk |-> TrSpk(k), ss |-> <<>>, wit |-> <<Sig>>]
TrNums(k) == [spk |-> TrSpk(k), ss |-> <<>>,
              wit |-> <<Sig, <<Byte("51")>>, <<Byte("c0"), <<32, "nums", "">>>>>>]
Wpkh(k) == [spk |-> WpkhSpk(k), ss |-> <<>>, wit |-> <<Sig, Pk(k)>>]
Wsh     == [spk |-> <<Byte("00"), Byte("20"), <<32, "j", "wsh">>>>, ss |-> <<>>, wit |-> <<Sig, <<Byte("51")>>>>]

Catalogue == IF UseCatalogue = 1
             THEN {Tr("ka"), Tr("kan"), Wpkh("ka"), Wpkh("kan"), Wpkh("kb"), Tr("kt"), TrNums("kb"), Wsh}
             ELSE {Tr("kt"), Wpkh("ka")}
Ops == << [op |-> "o2", bytes |-> <<1, 0, 1>>], [op |-> "o1", bytes |-> <<1, 0, 0>>], [op |-> "o3", bytes |-> <<0, 9, 9>>] >>

W == << [b |-> Atom("b1"), s |-> Atom("s1")], [b |-> Neg(Atom("b2")), s |-> Atom("s2")] >>
WLabels == << {"0", "7"}, {"7"} >>     \* labels each wallet knows
Codes == {[w |-> 1, label |-> ""], [w |-> 1, label |-> "0"], [w |-> 1, label |-> "7"],
          [w |-> 2, label |-> ""], [w |-> 2, label |-> "7"], [w |-> 2, label |-> "9"]}
DecoyKeys == {Atom("d1"), Add(Atom("s1"), Atom("d2"))}

(* coefficients of spend key, shared tweak and label 7: wrong signs, a label twice *)
NearMisses == {<<1, 1, -1, 0>>, <<1, -1, 0, 0>>, <<1, 1, 2, 0>>}

VARIABLES phase, ins, pays, todo, outs, owner, scan
vars == <<phase, ins, pays, todo, outs, owner, scan>>

CodeOf(p) == [b |-> W[p.w].b, s |-> W[p.w].s, label |-> p.label]
Secret == TweakOf(Keys, ins)
Derived == Payments(Secret.secret, [i \in 1..Len(pays) |-> CodeOf(pays[i])])

Near == {NearPay(Secret.secret, W[1], 0, "7", "7", c) : c \in NearMisses}

Init == /\ phase = "build" /\ ins = <<>> /\ pays = <<>> /\ todo = {} /\ outs = <<>> /\ owner = <<>>
        /\ scan = [w \in 1..2 |-> [found |-> <<>>, done |-> FALSE]]

AddInput == /\ phase = "build" /\ Len(ins) < MaxIns
            /\ \E c \in Catalogue, o \in 1..Len(Ops) :
                 /\ \A i \in 1..Len(ins) : ins[i].op # Ops[o].op
                 /\ ins' = Append(ins, [op |-> Ops[o].op, bytes |-> Ops[o].bytes,
                                        spk |-> c.spk, ss |-> c.ss, wit |-> c.wit])
            /\ UNCHANGED <<phase, pays, todo, outs, owner, scan>>
AddPay == /\ phase = "build" /\ Len(pays) < MaxPays /\ Len(ins) > 0
          /\ \E c \in Codes : pays' = Append(pays, c)
          /\ UNCHANGED <<phase, ins, todo, outs, owner, scan>>
Refuse == /\ phase = "build" /\ Len(ins) > 0 /\ Secret.status # "ok"
          /\ phase' = "refused"
          /\ UNCHANGED <<ins, pays, todo, outs, owner, scan>>
Derive == /\ phase = "build" /\ Secret.status = "ok"
          /\ phase' = "layout" /\ todo' = 1..Len(pays)
          /\ UNCHANGED <<ins, pays, outs, owner, scan>>
PlacePay == /\ phase = "layout"
            /\ \E i \in todo :
                 /\ outs' = Append(outs, Derived[i])
                 /\ owner' = Append(owner, i) /\ todo' = todo \ {i}
            /\ UNCHANGED <<phase, ins, pays, scan>>
PlaceDecoy == /\ phase = "layout" /\ Cardinality({i \in 1..Len(owner) : owner[i] = 0}) < MaxDecoys
              /\ \E d \in DecoyKeys \cup {Zero} \cup Near : outs' = Append(outs, d)
              /\ owner' = Append(owner, 0)
              /\ UNCHANGED <<phase, ins, pays, todo, scan>>
Publish == /\ phase = "layout" /\ todo = {} /\ phase' = "scan"
           /\ UNCHANGED <<ins, pays, todo, outs, owner, scan>>
StepMatches(w) ==
  Matches(W[w], LabelTable(W[w], WLabels[w]), Mul(Secret.secret, W[w].b), outs,
          {scan[w].found[i].out : i \in 1..Len(scan[w].found)}, Len(scan[w].found))
ScanHit(w) == /\ phase = "scan" /\ ~scan[w].done
              /\ \E r \in StepMatches(w) : scan' = [scan EXCEPT ![w].found = Append(@, r)]
              /\ UNCHANGED <<phase, ins, pays, todo, outs, owner>>
ScanStop(w) == /\ phase = "scan" /\ ~scan[w].done /\ StepMatches(w) = {}
               /\ scan' = [scan EXCEPT ![w].done = TRUE]
               /\ UNCHANGED <<phase, ins, pays, todo, outs, owner>>
(* the wallets scan independently; one after the other explores the same results *)
ScanAny == \/ ScanHit(1) \/ ScanStop(1)
           \/ scan[1].done /\ (ScanHit(2) \/ ScanStop(2))
Next == AddInput \/ AddPay \/ Refuse \/ Derive \/ PlacePay \/ PlaceDecoy \/ Publish \/ ScanAny
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Known(w, l) == l = "" \/ l \in WLabels[w]
Paid(w) == {i \in 1..Len(pays) : pays[i].w = w}
(* every payment of a wallet whose labels it knows is found, with its label *)
Agreement ==
  \A w \in 1..2 : scan[w].done /\ (\A i \in Paid(w) : Known(w, pays[i].label)) =>
     /\ {owner[scan[w].found[j].out] : j \in 1..Len(scan[w].found)} = Paid(w)
     /\ \A j \in 1..Len(scan[w].found) : scan[w].found[j].label = pays[owner[scan[w].found[j].out]].label
(* nothing is found that the wallet cannot spend, and nothing twice *)
Soundness ==
  \A w \in 1..2 : LET f == scan[w].found IN
     /\ \A j \in 1..Len(f) : Controls(W[w], f[j], outs) /\ f[j].k = j - 1 /\ Known(w, f[j].label)
     /\ \A i, j \in 1..Len(f) : i # j => f[i].out # f[j].out
     /\ \A j \in 1..Len(f) : owner[f[j].out] \in Paid(w)
(* the tweak is the same for every order of the inputs *)
OrderFree ==
  phase = "build" => \A p \in SetToAllKPermutations(1..Len(ins)) :
     Len(p) = Len(ins) => TweakOf(Keys, [i \in 1..Len(ins) |-> ins[p[i]]]) = Secret
(* refused exactly without eligible key or with a zero sum *)
RefuseIff ==
  phase = "refused" => \/ Eligible(Keys, ins) = <<>>
                       \/ SumOf(Keys, Eligible(Keys, ins)) = Zero
(* reordering codes of different scan keys does not change what each gets *)
LightClient ==
  \A w \in 1..2 : scan[w].done =>
     LET lk == LightKeys(W[w], LabelTable(W[w], WLabels[w]), Mul(Secret.secret, W[w].b), 0)
         present == \E i \in 1..Len(outs) : outs[i] # Zero /\ \E q \in lk : SameX(q, outs[i])
     IN  present <=> Len(scan[w].found) > 0
=============================================================================
