------------------------------ MODULE EvalDleq ------------------------------
(* For each line of the scenario file: the proof for the given values and   *)
(* what verifying each of the altered statements must give.                 *)
EXTENDS SPDleq, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.SCN)
Heads == 16
VARIABLE pos
(* a polynomial given as a sequence of [c, as] *)
PolyOf(ms) == Sum([i \in 1..Len(ms) |->
   FoldLeft(LAMBDA acc, x : Mul(acc, Atom(x)), IntPoly(ms[i].c), ms[i].as)])
Point(h, x) ==
  CASE x = "A" -> h.A [] x = "B" -> h.B [] x = "C" -> h.C [] x = "G" -> h.G
    [] x = "-A" -> Neg(h.A) [] x = "-B" -> Neg(h.B) [] x = "-C" -> Neg(h.C) [] x = "-G" -> Neg(h.G)
    [] x = "2A" -> Add(h.A, h.A) [] x = "2B" -> Add(h.B, h.B) [] x = "2C" -> Add(h.C, h.C) [] x = "2G" -> Add(h.G, h.G)
    [] x = "A+G" -> Add(h.A, h.G) [] x = "C+B" -> Add(h.C, h.B)
    [] OTHER -> Atom(x)
Number(h, x) ==
  CASE x = "e" -> h.e [] x = "s" -> h.s [] x = "-e" -> Neg(h.e) [] x = "-s" -> Neg(h.s)
    [] x = "0" -> Zero [] x = "1" -> IntPoly(1)
    [] x = "e+d" -> Add(h.e, Atom("d")) [] x = "s+d" -> Add(h.s, Atom("d"))
    [] OTHER -> Atom(x)
Off(x) == x \in {"big", "order"}
Verdict(h, v) ==
  LET ps == [f \in {"A", "B", "C", "G"} |-> Point(h, v[f])]
  IN  IF \E f \in DOMAIN ps : ps[f] = Zero THEN "skip"
      ELSE IF Off(v.e) \/ Off(v.s) THEN "no"
      ELSE IF Accepts(ps.A, ps.B, ps.C, ps.G, v.m, Number(h, v.e), Number(h, v.s)) THEN "yes" ELSE "no"
(* a proof assembled by an adversary: C = c*B, chosen nonces, the challenge *)
(* over the chosen arguments                                                *)
Forged(s, a, B, G) ==
  LET c == PolyOf(s.forge.c)
      k1 == PolyOf(s.forge.k1)
      k2 == PolyOf(s.forge.k2)
      A == Mul(a, G)
      C == Mul(c, B)
      all == [A |-> Ser(A), B |-> Ser(B), C |-> Ser(C), G |-> Ser(G), R1 |-> Ser(Mul(k1, G)), R2 |-> Ser(Mul(k2, B)), m |-> Blob(s.m)]
      e == Hash("BIP0374/challenge", [i \in 1..Len(s.forge.over) |-> all[s.forge.over[i]]])
      r == IF s.forge.with = 1 THEN Add(k1, Mul(e, a)) ELSE Add(k2, Mul(e, c))
  IN  [C |-> Ser(C), e |-> SkB(e), s |-> SkB(r),
       ok |-> IF C = Zero THEN "skip" ELSE IF Accepts(A, B, C, G, s.m, e, r) THEN "yes" ELSE "no"]
Expected(s) ==
  LET a == PolyOf(s.a)
      B == PolyOf(s.B)
      G == PolyOf(s.G)
      p == TLCEval(Prove(a, B, s.r, G, s.m))
      h == TLCEval([A |-> Mul(a, G), B |-> B, C |-> Mul(a, B), G |-> G, e |-> p.e, s |-> p.s])
  IN  [id |-> s.id, a |-> SkB(a), A |-> Ser(h.A), B |-> Ser(B), C |-> Ser(h.C), G |-> Ser(G),
       e |-> SkB(p.e), s |-> SkB(p.s),
       honest |-> Accepts(h.A, B, h.C, G, s.m, p.e, p.s),
       verdicts |-> [i \in 1..Len(s.alter) |-> Verdict(h, s.alter[i])],
       points |-> [i \in 1..Len(s.alter) |->
          LET v == s.alter[i] IN IF Verdict(h, v) = "skip" THEN <<>>
             ELSE <<Ser(Point(h, v.A)), Ser(Point(h, v.B)), Ser(Point(h, v.C)), Ser(Point(h, v.G))>>],
       numbers |-> [i \in 1..Len(s.alter) |->
          LET v == s.alter[i] IN <<IF Off(v.e) THEN v.e ELSE SkB(Number(h, v.e)), IF Off(v.s) THEN v.s ELSE SkB(Number(h, v.s))>>],
       forged |-> IF s.forge.with = 0 THEN [ok |-> "skip"] ELSE Forged(s, a, B, G)]
Init == pos \in 1..(IF Len(Scn) < Heads THEN Len(Scn) ELSE Heads)
Next == pos + Heads <= Len(Scn) /\ pos' = pos + Heads
Emit == PrintT("OUT " \o ToJson(Expected(Scn[pos])))
=============================================================================
