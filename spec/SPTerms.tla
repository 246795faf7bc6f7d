------------------------------ MODULE SPTerms ------------------------------
(* Symbolic algebra for silent payments.                                   *)
(*                                                                         *)
(* A scalar (and the point obtained by multiplying it with the generator)  *)
(* is a polynomial with integer coefficients over atoms.  An atom is a     *)
(* string: a base key name, a tagged hash "(hash TAG arg ...)" or the      *)
(* even-Y representative of another polynomial "(even POLY)".  Every base  *)
(* atom stands for a secret whose public key has an even Y coordinate; a   *)
(* key with odd Y is written as the negation of an atom.                   *)
(*                                                                         *)
(* A polynomial is a function from monomials to non-zero integers and a    *)
(* monomial a function from atoms to positive exponents (the atom "1" is   *)
(* always present), so two scalars are equal for all keys exactly when     *)
(* their polynomials are equal.  Hash arguments are rendered canonically.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Zero == [m \in {} |-> 0]
Atom(a) == ("1" :> 1 @@ a :> 1) :> 1
IntPoly(n) == IF n = 0 THEN Zero ELSE ("1" :> 1) :> n

Coef(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
Add(p, q) ==
  LET D == {m \in DOMAIN p \cup DOMAIN q : Coef(p, m) + Coef(q, m) # 0}
  IN  [m \in D |-> Coef(p, m) + Coef(q, m)]
Neg(p) == [m \in DOMAIN p |-> 0 - p[m]]
Sub(p, q) == Add(p, Neg(q))
Sum(seq) == FoldSeq(LAMBDA x, acc : Add(acc, x), Zero, seq)

MonoMul(a, b) ==
  [x \in DOMAIN a \cup DOMAIN b |->
     IF x = "1" THEN 1
     ELSE (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
(* multiplication by one monomial is injective on monomials *)
MulMono(p, m, c) ==
  LET un(n) == CHOOSE k \in DOMAIN p : MonoMul(k, m) = n
  IN  [n \in {MonoMul(k, m) : k \in DOMAIN p} |-> c * p[un(n)]]
Mul(p, q) ==
  FoldSet(LAMBDA m, acc : Add(acc, MulMono(p, m, q[m])), Zero, DOMAIN q)

----------------------------------------------------------------------------
(* Rendering.  SetToSeq enumerates equal sets in the same order, so equal  *)
(* polynomials have equal renderings.                                      *)
Join(seq) == FoldLeft(LAMBDA acc, s : acc \o " " \o s, "", seq)

RenderMono(m, c) ==
  LET as == SetToSeq(DOMAIN m \ {"1"})
      reps == [i \in 1..Len(as) |-> Join([j \in 1..m[as[i]] |-> as[i]])]
  IN  "(" \o ToString(c) \o FoldLeft(LAMBDA acc, s : acc \o s, "", reps) \o ")"
Render(p) ==
  LET ms == SetToSeq(DOMAIN p)
  IN  "(+" \o Join([i \in 1..Len(ms) |-> RenderMono(ms[i], p[ms[i]])]) \o ")"

(* byte string arguments *)
Ser(p)   == "(ser " \o Render(p) \o ")"       \* compressed point p*G
SkB(p)   == "(sk " \o Render(p) \o ")"        \* the scalar itself, 32 bytes
U32(n)   == "(u32 " \o ToString(n) \o ")"     \* 4 bytes, big endian
U32S(s)  == "(u32 " \o s \o ")"               \* same, number given as text
Blob(s)  == "(blob " \o s \o ")"              \* named bytes
OpB(s)   == "(op " \o s \o ")"                \* 36 bytes of a named outpoint
HashStr(tag, args) == "(hash " \o tag \o Join(args) \o ")"
Hash(tag, args) == Atom(HashStr(tag, args))

IsBase(a) == SubSeq(a, 1, 1) # "("

(* Canonical sign: p and -p have the same monomials, so both are mapped to *)
(* the same representative.                                                *)
Canon(p) ==
  IF p = Zero THEN p
  ELSE LET m == SetToSeq(DOMAIN p)[1] IN IF p[m] < 0 THEN Neg(p) ELSE p
SameX(p, q) == p = q \/ p = Neg(q)

(* The representative of {p, -p} whose public key has even Y.              *)
Even(p) ==
  LET c == Canon(p)
      single == \E m \in DOMAIN c : /\ DOMAIN c = {m} /\ c[m] = 1
                                    /\ Cardinality(DOMAIN m) = 2
                                    /\ \E a \in DOMAIN m \ {"1"} : IsBase(a) /\ m[a] = 1
  IN  IF p = Zero THEN Zero
      ELSE IF single THEN c
      ELSE Atom("(even " \o Render(c) \o ")")
XB(p) == "(x " \o Render(Canon(p)) \o ")"     \* x-only key, 32 bytes
=============================================================================
