------------------------------- MODULE SPDleq -------------------------------
(* BIP374: proofs that log_G(A) = log_B(C).  A point is represented by its  *)
(* discrete logarithm to the curve's generator, a polynomial over atoms.    *)
EXTENDS SPTerms
NoMsg == ""
MsgArg(m) == IF m = NoMsg THEN <<>> ELSE <<Blob(m)>>
XorB(a, b) == "(xor " \o a \o " " \o b \o ")"
Aux(r) == HashStr("BIP0374/aux", <<Blob(r)>>)
Nonce(a, A, C, r, m) ==
  Hash("BIP0374/nonce", <<XorB(SkB(a), Aux(r)), Ser(A), Ser(C)>> \o MsgArg(m))
Challenge(A, B, C, G, R1, R2, m) ==
  Hash("BIP0374/challenge", <<Ser(A), Ser(B), Ser(C), Ser(G), Ser(R1), Ser(R2)>> \o MsgArg(m))
(* (e, s) for the secret a *)
Prove(a, B, r, G, m) ==
  LET A == Mul(a, G)
      C == Mul(a, B)
      k == Nonce(a, A, C, r, m)
      e == Challenge(A, B, C, G, Mul(k, G), Mul(k, B), m)
  IN  [e |-> e, s |-> Add(k, Mul(e, a))]
Commit(X, Y, e, s) == Sub(Mul(s, X), Mul(e, Y))
(* points and proof as received; none of the points is infinite *)
Accepts(A, B, C, G, m, e, s) ==
  LET R1 == Commit(G, A, e, s)
      R2 == Commit(B, C, e, s)
  IN  R1 # Zero /\ R2 # Zero /\ e = Challenge(A, B, C, G, R1, R2, m)
=============================================================================
