------------------------------- MODULE MC_Psbt ------------------------------
(* Derivation in a partially signed transaction, step by step: inputs are   *)
(* examined one at a time, the payments derived, every recipient's number   *)
(* of outputs checked (in any order) and only then the outputs replaced one *)
(* by one; afterwards the transaction is published and scanned.  Explores   *)
(* every combination of faults of the inputs below, recipient lists and     *)
(* output layouts within the bounds.                                        *)
EXTENDS SPPsbt
CONSTANTS MaxIns, MaxOuts, MaxRecips
Byte(h) == <<1, "b", h>>
D == "ka" :> [base |-> "a1", neg |-> FALSE, tweak |-> "none", arg |-> ""]
  @@ "kn" :> [base |-> "a1", neg |-> TRUE, tweak |-> "none", arg |-> ""]
  @@ "kb" :> [base |-> "a2", neg |-> TRUE, tweak |-> "none", arg |-> ""]
  @@ "it" :> [base |-> "a3", neg |-> TRUE, tweak |-> "none", arg |-> ""]
  @@ "kt" :> [base |-> "a3", neg |-> TRUE, tweak |-> "tap", arg |-> ""]
  @@ "sp" :> [base |-> "s9", neg |-> FALSE, tweak |-> "none", arg |-> ""]
  @@ "ks" :> [base |-> "s9", neg |-> FALSE, tweak |-> "sp", arg |-> "t1"]
Keys == [n \in DOMAIN D |-> KeyPolyOf(D[n])]
TrSpk(k) == <<Byte("51"), Byte("20"), <<32, "x", k>>>>
Sig == <<<<64, "j", "sig">>>>
Mk(spk, ss, wit, utxo, fs, fw, origins, records) ==
  [spk |-> spk, ss |-> ss, wit |-> wit, utxo |-> utxo, finss |-> fs, finwit |-> fw, mr |-> "",
   origins |-> origins, records |-> records, sig |-> FALSE]
Org(bip, direct) == <<[bip |-> bip, direct |-> direct]>>
Wpkh(k, utxo, fin, o) ==
  Mk(<<Byte("00"), Byte("14"), <<20, "h160pk", k>>>>, <<>>, <<Sig, <<<<33, "pk", k>>>>>>, utxo, FALSE, fin, o, <<>>)
Tr(k, o) == Mk(TrSpk(k), <<>>, <<Sig>>, "wit", FALSE, TRUE, o, <<>>)
Rec(t, have, fin) == Mk(TrSpk("ks"), <<>>, <<Sig>>, "wit", FALSE, fin, <<>>,
                        <<[spend |-> "sp", tweak |-> t, have |-> have, as |-> ""]>>)
Catalogue == {
  Wpkh("ka", "wit", TRUE, Org("ka", "none")), Wpkh("ka", "non", TRUE, Org("none", "ka")),
  Wpkh("kn", "wit", TRUE, Org("kn", "none")), Wpkh("ka", "wit", TRUE, Org("kb", "ka")),
  Wpkh("ka", "wit", TRUE, Org("none", "none")), Wpkh("ka", "wit", TRUE, Org("none", "err")),
  Wpkh("ka", "wit", TRUE, <<>>), Wpkh("ka", "none", TRUE, Org("ka", "ka")),
  Wpkh("ka", "wit", FALSE, Org("ka", "ka")),
  Tr("kt", Org("it", "none")), Tr("kt", Org("none", "it")), Tr("kt", Org("ka", "none")),
  Mk(<<Byte("00"), Byte("20"), <<32, "j", "w">>>>, <<>>, <<Sig>>, "wit", FALSE, TRUE, <<>>, <<>>),
  Mk(<<Byte("52"), Byte("20"), <<32, "j", "w">>>>, <<>>, <<Sig>>, "wit", FALSE, TRUE, <<>>, <<>>),
  Rec("t1", "yes", FALSE), Rec("t1", "no", TRUE), Rec("t2", "yes", FALSE), Rec("short", "yes", TRUE) }
Ops == << [op |-> "o2", bytes |-> <<1, 0, 1>>], [op |-> "o1", bytes |-> <<1, 0, 0>>] >>

W == << [b |-> Atom("b1"), s |-> Atom("s1")], [b |-> Neg(Atom("b2")), s |-> Atom("s2")] >>
Code == << [w |-> 1, b |-> W[1].b, s |-> W[1].s, label |-> ""],
           [w |-> 1, b |-> W[1].b, s |-> W[1].s, label |-> "7"],
           [w |-> 2, b |-> W[2].b, s |-> W[2].s, label |-> ""] >>

VARIABLES pc, ins, recips, layout, outs, i, acc, missing, todo, err
vars == <<pc, ins, recips, layout, outs, i, acc, missing, todo, err>>
(* outs[o] is Zero while the output still has its original script *)
Init == /\ pc = "inputs" /\ i = 1 /\ acc = <<>> /\ missing = FALSE /\ todo = {} /\ err = ""
        /\ \E n \in 1..MaxIns : \E f \in [1..n -> Catalogue] : ins = [j \in 1..n |-> f[j] @@ Ops[j]]
        /\ \E n \in 0..MaxRecips : recips \in [1..n -> 1..3]
        /\ \E n \in 0..MaxOuts : layout \in [1..n -> 0..3]
        /\ outs = [o \in 1..Len(layout) |-> Zero]
Fail(why) == pc' = "failed" /\ err' = why /\ UNCHANGED <<ins, recips, layout, outs, i, acc, missing, todo>>
Look ==
  /\ pc = "inputs" /\ i <= Len(ins)
  /\ LET r == Input(D, Keys, ins[i])
     IN  IF r.st \in {"prevout", "future", "witness", "mismatch"} THEN Fail(r.st)
         ELSE /\ i' = i + 1
              /\ acc' = IF r.st = "ok" THEN Append(acc, Contribution(r.kind, r.p)) ELSE acc
              /\ missing' = (missing \/ r.st = "missing")
              /\ UNCHANGED <<pc, ins, recips, layout, outs, todo, err>>
Combine ==
  /\ pc = "inputs" /\ i > Len(ins)
  /\ IF missing THEN Fail("missing")
     ELSE IF acc = <<>> THEN Fail("noeligible")
     ELSE IF Sum(acc) = Zero THEN Fail("zero")
     ELSE /\ pc' = "check" /\ todo' = {recips[j] : j \in 1..Len(recips)}
          /\ UNCHANGED <<ins, recips, layout, outs, i, acc, missing, err>>
Paid == SelectSeq(recips, LAMBDA c : Count(layout, c) > 0)
Check ==
  /\ pc = "check"
  /\ \E c \in todo :
       IF Count(layout, c) > 0 /\ Count(layout, c) # Count(recips, c) THEN Fail("counts")
       ELSE /\ todo' = todo \ {c} /\ UNCHANGED <<pc, ins, recips, layout, outs, i, acc, missing, err>>
Checked == /\ pc = "check" /\ todo = {} /\ pc' = "write"
           /\ todo' = {o \in 1..Len(layout) : layout[o] # 0 /\ Count(Paid, layout[o]) > 0}
           /\ UNCHANGED <<ins, recips, layout, outs, i, acc, missing, err>>
Secret == PartialSecret(MinOpOf(ins), Sum(acc))
Write ==
  /\ pc = "write"
  /\ \E o \in todo :
       /\ \A q \in todo : q >= o
       /\ LET j == CHOOSE j \in 1..Len(Paid) :
                     Paid[j] = layout[o] /\ Count(SubSeq(Paid, 1, j), layout[o]) = Count(SubSeq(layout, 1, o), layout[o])
          IN  outs' = [outs EXCEPT ![o] = Payments(Secret, [x \in 1..Len(Paid) |-> Code[Paid[x]]])[j]]
       /\ todo' = todo \ {o}
  /\ UNCHANGED <<pc, ins, recips, layout, i, acc, missing, err>>
Done == /\ pc = "write" /\ todo = {} /\ pc' = "done"
        /\ UNCHANGED <<ins, recips, layout, outs, i, acc, missing, todo, err>>
Next == Look \/ Combine \/ Check \/ Checked \/ Write \/ Done
Spec == Init /\ [][Next]_vars

Atomic == pc = "failed" => \A o \in 1..Len(outs) : outs[o] = Zero
(* fails exactly when the declarative description says so *)
Decides == pc \in {"failed", "done"} =>
  LET d == Derive(D, Keys, ins, Code, recips, layout)
  IN  IF pc = "failed" THEN d.res = "err" ELSE d.res = "ok" /\ d.outs = outs
(* a published transaction pays every listed recipient that has an output,  *)
(* and the recipients find it                                               *)
Found == pc = "done" =>
  LET tw == TweakOf(Keys, ins)
  IN  /\ tw.status = "ok" /\ tw.secret = Secret
      /\ \A w \in 1..2 : \A f \in Scans(W[w], LabelTable(W[w], {"7"}), Mul(tw.secret, W[w].b), outs, <<>>, 0) :
           {f[j].out : j \in 1..Len(f)}
           = {o \in 1..Len(layout) : layout[o] # 0 /\ Code[layout[o]].w = w /\ Count(recips, layout[o]) > 0}
Untouched == \A o \in 1..Len(outs) : (layout[o] = 0 \/ Count(recips, layout[o]) = 0) => outs[o] = Zero
=============================================================================
