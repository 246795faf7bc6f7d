----------------------------- MODULE EvalLabels -----------------------------
(* Labels of a wallet: for each number the scalar, its point and the       *)
(* labelled spend key, and that different numbers and wallets never share  *)
(* one of them.                                                            *)
EXTENDS SPProto, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
Signed(a, neg) == IF neg THEN Neg(Atom(a)) ELSE Atom(a)
Wal(d) == [b |-> Signed(d.scan, d.scanneg), s |-> Signed(d.spend, d.spendneg)]
Expected(s) ==
  LET W == [i \in 1..Len(s.wallets) |-> Wal(s.wallets[i])]
      one(w, l) == [tweak |-> SkB(LabelTweak(w.b, l)), point |-> Ser(LabelTweak(w.b, l)),
                    spend |-> Ser(LabelledSpend(w, l))]
      distinct == \A i \in 1..Len(W) : \A a, b \in 1..Len(s.nums) :
                     (s.nums[a] # s.nums[b]) =>
                        /\ LabelTweak(W[i].b, s.nums[a]) # LabelTweak(W[i].b, s.nums[b])
                        /\ LabelledSpend(W[i], s.nums[a]) # LabelledSpend(W[i], s.nums[b])
                        /\ LabelledSpend(W[i], s.nums[a]) # W[i].s
  IN  IF ~distinct THEN Assert(FALSE, <<"labels collide", s.id>>)
      ELSE [id |-> s.id,
            (* a labelled code has the version of the code it was made from *)
            version |-> s.version,
            wallets |-> [i \in 1..Len(W) |->
               [scan |-> Ser(W[i].b), spend |-> Ser(W[i].s),
                labels |-> [j \in 1..Len(s.nums) |-> one(W[i], s.nums[j])]]]]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
