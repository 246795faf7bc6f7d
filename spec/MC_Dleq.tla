------------------------------- MODULE MC_Dleq ------------------------------
(* A prover publishes a statement and a proof; whoever relays them may      *)
(* replace, negate or exchange any of A, B, C, G, message, e and s (up to   *)
(* Changes replacements), or publish a proof of their own making; then the  *)
(* verifier decides.                                                        *)
EXTENDS SPDleq
CONSTANTS Changes
a == Atom("a")
Secrets == {a, Neg(a), IntPoly(1), IntPoly(-1), IntPoly(2)}
Bases == {Atom("b"), Neg(Atom("b")), IntPoly(1), Atom("g"), a}
Gens1 == {IntPoly(1), Atom("g"), Neg(Atom("g"))}
Msgs == {NoMsg, "zero", "m1"}

VARIABLES sec, st, orig, left, verdict, forged
vars == <<sec, st, orig, left, verdict, forged>>
Honest(x, B, G, m) ==
  LET p == Prove(x, B, "r", G, m)
  IN  [A |-> Mul(x, G), B |-> B, C |-> Mul(x, B), G |-> G, m |-> m, e |-> p.e, s |-> p.s]
Init ==
  /\ left = Changes /\ verdict = "none" /\ forged = FALSE
  /\ \E x \in Secrets, B \in Bases, G \in Gens1, m \in Msgs :
       /\ sec = x /\ st = Honest(x, B, G, m)
  /\ orig = st
Points == {"A", "B", "C", "G"}
(* a proof for a false statement, valid in one of its two equations *)
Forge ==
  /\ ~forged /\ verdict = "none" /\ left = Changes
  /\ \E which \in {"first", "second"} :
       LET c == Atom("c")
           C == Mul(c, orig.B)
           R1 == Mul(Atom("k1"), orig.G)
           R2 == Mul(Atom("k2"), orig.B)
           e == Challenge(orig.A, orig.B, C, orig.G, R1, R2, orig.m)
           s == IF which = "first" THEN Add(Atom("k1"), Mul(e, sec)) ELSE Add(Atom("k2"), Mul(e, c))
       IN  st' = [orig EXCEPT !.C = C, !.e = e, !.s = s]
  /\ forged' = TRUE /\ left' = 0
  /\ UNCHANGED <<sec, orig, verdict>>
Tamper ==
  /\ verdict = "none" /\ left > 0
  /\ left' = left - 1
  /\ \/ \E f \in Points : \E v \in {Atom("x"), Neg(st[f]), Add(st[f], st[f])} \cup {st[g] : g \in Points} :
          st' = [st EXCEPT ![f] = v]
     \/ \E m \in Msgs \cup {"m2"} : st' = [st EXCEPT !.m = m]
     \/ \E v \in {Neg(st.e), Add(st.e, Atom("d")), st.s, Zero} : st' = [st EXCEPT !.e = v]
     \/ \E v \in {Neg(st.s), Add(st.s, Atom("d")), st.e, Zero} : st' = [st EXCEPT !.s = v]
     \/ \E f, g \in Points : st' = [st EXCEPT ![f] = st[g], ![g] = st[f]]
  /\ UNCHANGED <<sec, orig, verdict, forged>>
Decide ==
  /\ verdict = "none"
  /\ verdict' = IF \E f \in Points : st[f] = Zero THEN "invalid"
                ELSE IF Accepts(st.A, st.B, st.C, st.G, st.m, st.e, st.s) THEN "accept" ELSE "reject"
  /\ UNCHANGED <<sec, st, orig, left, forged>>
Next == Forge \/ Tamper \/ Decide
Spec == Init /\ [][Next]_vars

Complete == (verdict # "none" /\ st = orig) => verdict = "accept"
Binding == verdict = "accept" => st = orig
=============================================================================
