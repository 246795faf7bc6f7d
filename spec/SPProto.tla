------------------------------ MODULE SPProto ------------------------------
(* BIP352 as functions over abstract transactions.                         *)
(*                                                                         *)
(* A byte string (script, witness item) is a sequence of chunks            *)
(* <<n, kind, ref>>: n bytes whose content is described by kind and ref.   *)
(*   "b"      one literal byte, ref in hex                                 *)
(*   "pk"     33-byte compressed public key of key ref                     *)
(*   "upk"    65-byte uncompressed public key, "hyb" its hybrid encoding   *)
(*   "x"      32-byte x coordinate of key ref                              *)
(*   "offx"   32 bytes that are no x coordinate                            *)
(*   "badpk"  33 bytes: 02 followed by no x coordinate                     *)
(*   "h160pk" "h160upk" hash160 of the compressed / uncompressed key       *)
(*   "h160rs" hash160 of the P2WPKH script of key ref                      *)
(*   "nums"   the 32 bytes of the BIP341 NUMS point                        *)
(*   "j"      unrelated bytes named ref                                    *)
(* Distinct chunks are distinct bytes: hashes do not collide.              *)
EXTENDS SPTerms

N(c) == c[1]
K(c) == c[2]
R(c) == c[3]
Total(bs) == FoldSeq(LAMBDA c, acc : acc + N(c), 0, bs)
B(c, h) == K(c) = "b" /\ R(c) = h
StartsWith(bs, hs) == Len(bs) >= Len(hs) /\ \A i \in 1..Len(hs) : B(bs[i], hs[i])
EndsWith(bs, hs) ==
  Len(bs) >= Len(hs) /\ \A i \in 1..Len(hs) : B(bs[Len(bs) - Len(hs) + i], hs[i])

IsP2TR(s)   == Total(s) = 34 /\ StartsWith(s, <<"51", "20">>)
IsP2WPKH(s) == Total(s) = 22 /\ StartsWith(s, <<"00", "14">>)
IsP2SH(s)   == Total(s) = 23 /\ StartsWith(s, <<"a9", "14">>) /\ EndsWith(s, <<"87">>)
IsP2PKH(s)  == Total(s) = 25 /\ StartsWith(s, <<"76", "a9", "14">>) /\ EndsWith(s, <<"88", "ac">>)
HighVersions == {"52", "53", "54", "55", "56", "57", "58", "59", "5a", "5b", "5c", "5d", "5e", "5f", "60"}
PushLen == ("02" :> 2 @@ "14" :> 20 @@ "20" :> 32 @@ "28" :> 40 @@ "01" :> 1 @@ "29" :> 41)
(* an output of witness version 2 or more (2 to 40 bytes of program) *)
IsFutureWitness(s) ==
  /\ Len(s) >= 2 /\ K(s[1]) = "b" /\ R(s[1]) \in HighVersions
  /\ K(s[2]) = "b" /\ R(s[2]) \in DOMAIN PushLen
  /\ PushLen[R(s[2])] \in 2..40 /\ Total(s) = 2 + PushLen[R(s[2])]

NoKey == "none"
AnyKey == "any"      \* malformed beyond what consensus admits: only "no panic" is required
Res(kind, key) == [kind |-> kind, key |-> key]

(* Result of looking for the BIP352 key of an input: its type and the name *)
(* of the key (without parity), or NoKey.                                  *)
TaprootKey(spk, wit) ==
  LET hasAnnex == Len(wit) >= 2 /\ Len(wit[Len(wit)]) >= 1 /\ B(wit[Len(wit)][1], "50")
      st == IF hasAnnex THEN SubSeq(wit, 1, Len(wit) - 1) ELSE wit
      scriptPath == Len(st) >= 2
      cb == st[Len(st)]
      goodLen == Total(cb) >= 33 /\ (Total(cb) - 33) % 32 = 0 /\ (Total(cb) - 33) \div 32 <= 128
      nums == Len(cb) >= 2 /\ N(cb[1]) = 1 /\ K(cb[2]) = "nums"
  IN  IF scriptPath /\ ~goodLen THEN Res("tr", AnyKey)
      ELSE IF scriptPath /\ nums THEN Res("tr", NoKey)
      ELSE IF Len(spk) = 3 /\ K(spk[3]) = "x" THEN Res("tr", R(spk[3]))
      ELSE Res("tr", NoKey)

WitnessKey(kind, wit) ==
  LET l == wit[Len(wit)]
  IN  IF Len(l) = 1 /\ K(l[1]) = "pk" THEN Res(kind, R(l[1])) ELSE Res(kind, NoKey)

(* the last compressed key in the script signature that hashes to the      *)
(* key hash of the script                                                  *)
LegacyKey(spk, ss) ==
  LET hit == {i \in 1..Len(ss) : K(ss[i]) = "pk" /\ Len(spk) >= 4
                 /\ K(spk[4]) = "h160pk" /\ R(spk[4]) = R(ss[i])}
  IN  IF hit = {} THEN Res("pkh", NoKey) ELSE Res("pkh", R(ss[Max(hit)]))

IsNested(ss) ==
  (* a single push of a P2WPKH script *)
  Total(ss) = 23 /\ StartsWith(ss, <<"16", "00", "14">>)

InputKey(spk, ss, wit) ==
  IF IsP2TR(spk) /\ Len(wit) > 0 /\ Total(ss) = 0 THEN TaprootKey(spk, wit)
  ELSE IF IsP2WPKH(spk) /\ Len(wit) > 0 /\ Total(ss) = 0 THEN WitnessKey("wpkh", wit)
  ELSE IF IsP2SH(spk) /\ Len(wit) > 0 /\ IsNested(ss) THEN WitnessKey("sh", wit)
  ELSE IF IsP2PKH(spk) /\ Len(wit) = 0 /\ Total(ss) > 0 THEN LegacyKey(spk, ss)
  ELSE Res("none", NoKey)

----------------------------------------------------------------------------
(* Keys.  A scenario declares its keys as a function from names to         *)
(* descriptions [base, neg, tweak, arg]; KeyPoly is the secret scalar.     *)
(*   tweak = "none"  plain key                                             *)
(*         = "tap"   BIP341 output key: even(base) + TapTweak(x(base))     *)
(*         = "taproot" same with a merkle root named arg                   *)
(*         = "sp"    base + tweak atom arg                                 *)
BaseKey(d) == IF d.neg THEN Neg(Atom(d.base)) ELSE Atom(d.base)
KeyPolyOf(d) ==
  CASE d.tweak = "none" -> BaseKey(d)
    [] d.tweak = "tap" ->
         Add(Even(BaseKey(d)), Hash("TapTweak", <<XB(BaseKey(d))>>))
    [] d.tweak = "taproot" ->
         Add(Even(BaseKey(d)), Hash("TapTweak", <<XB(BaseKey(d)), Blob(d.arg)>>))
    [] d.tweak = "sp" -> Add(BaseKey(d), Atom(d.arg))
    [] OTHER -> Assert(FALSE, "unknown tweak")

(* Secret that enters the sum for an input of the given type.              *)
Contribution(kind, p) == IF kind = "tr" THEN Even(p) ELSE p

----------------------------------------------------------------------------
(* Outpoints are compared as 36 serialized bytes.                          *)
RECURSIVE BytesLess(_, _, _)
BytesLess(a, b, i) ==
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE BytesLess(a, b, i + 1)
(* name of the smallest outpoint of a non-empty sequence of [name, bytes]  *)
MinOp(ops) ==
  FoldSeq(LAMBDA o, best : IF BytesLess(o.bytes, best.bytes, 1) THEN o ELSE best, ops[1], ops).name

InputHash(minop, A) == Hash("BIP0352/Inputs", <<OpB(minop), Ser(A)>>)
LabelTweak(bscan, m) == Hash("BIP0352/Label", <<SkB(bscan), U32S(m)>>)
SharedTweak(ecdh, k) == Hash("BIP0352/SharedSecret", <<Ser(ecdh), U32(k)>>)

PartialSecret(minop, a) == Mul(InputHash(minop, a), a)

(* A wallet is [b |-> scan secret, s |-> spend secret]; a code is a wallet  *)
(* with a label number (text) or "" for the base code.                      *)
LabelledSpend(w, label) ==
  IF label = "" THEN w.s ELSE Add(w.s, LabelTweak(w.b, label))

(* Outputs for a list of codes: the derivation index of a code is the      *)
(* number of earlier occurrences of the same scan key.                     *)
KIndex(codes, i) == Cardinality({j \in 1..(i - 1) : codes[j].b = codes[i].b})
PayPoly(partial, code, k) ==
  Add(LabelledSpend(code, code.label), SharedTweak(Mul(partial, code.b), k))
Payments(partial, codes) ==
  [i \in 1..Len(codes) |-> PayPoly(partial, codes[i], KIndex(codes, i))]

----------------------------------------------------------------------------
(* Receiver.  outs is a sequence of output keys (polynomials up to sign;   *)
(* Zero for an output that is no taproot output or no curve point); found  *)
(* is the sequence of reports [out, k, label, tweak].  Scanning is a loop: *)
(* at each index k some not yet reported output that equals                *)
(* P_k = spend + t_k or P_k + label is reported; it stops at the first k   *)
(* without a match.                                                        *)
LabelTable(w, labels) == [l \in labels |-> LabelTweak(w.b, l)]
Matches(w, table, ecdh, outs, used, k) ==
  LET t == SharedTweak(ecdh, k)
      P == Add(w.s, t)
      free == {i \in 1..Len(outs) : i \notin used /\ outs[i] # Zero}
      base == {[out |-> i, k |-> k, label |-> "", tweak |-> t] : i \in {j \in free : SameX(outs[j], P)}}
      lab(l) == LET Q == Add(P, table[l])
                IN  {[out |-> i, k |-> k, label |-> l, tweak |-> Add(t, table[l])]
                       : i \in {j \in free : SameX(outs[j], Q)}}
  IN  base \cup UNION {lab(l) : l \in DOMAIN table}

(* all possible results of the loop *)
RECURSIVE Scans(_, _, _, _, _, _)
Scans(w, table, ecdh, outs, found, k) ==
  LET ms == Matches(w, table, ecdh, outs, {found[i].out : i \in 1..Len(found)}, k)
  IN  IF ms = {} THEN {found}
      ELSE UNION {Scans(w, table, ecdh, outs, Append(found, r), k + 1) : r \in ms}

(* Keys close to a payment: a combination of spend key, shared tweak and   *)
(* labels (m1, m2) with small coefficients c.  Only some of them pay w.    *)
Times(p, n) == IF n = 0 THEN Zero ELSE [m \in DOMAIN p |-> n * p[m]]
NearPay(secret, w, k, m1, m2, c) ==
  Sum(<< Times(w.s, c[1]), Times(SharedTweak(Mul(secret, w.b), k), c[2]),
         IF c[3] = 0 THEN Zero ELSE Times(LabelTweak(w.b, m1), c[3]),
         IF c[4] = 0 THEN Zero ELSE Times(LabelTweak(w.b, m2), c[4]) >>)

Controls(w, r, outs) == SameX(Add(w.s, r.tweak), outs[r.out])
(* scripts a light client derives from the public tweak alone *)
LightKeys(w, table, ecdh, k) ==
  LET P == Add(w.s, SharedTweak(ecdh, k))
  IN  {P} \cup {Add(P, table[l]) : l \in DOMAIN table}

----------------------------------------------------------------------------
(* Transactions.  An input is [op, bytes, spk, ss, wit] and keys gives the  *)
(* polynomial of every key name.                                            *)
Eligible(keys, ins) ==
  LET e == [i \in 1..Len(ins) |-> InputKey(ins[i].spk, ins[i].ss, ins[i].wit)]
  IN  SelectSeq(e, LAMBDA r : r.key # NoKey)
SumOf(keys, elig) == Sum([i \in 1..Len(elig) |-> Contribution(elig[i].kind, keys[elig[i].key])])
MinOpOf(ins) == MinOp([i \in 1..Len(ins) |-> [name |-> ins[i].op, bytes |-> ins[i].bytes]])

(* status "ok" with the secret, or the reason why there is none *)
TweakOf(keys, ins) ==
  LET elig == Eligible(keys, ins)
      a == SumOf(keys, elig)
  IN  IF Len(ins) = 0 THEN [status |-> "noinputs", secret |-> Zero]
      ELSE IF \E i \in 1..Len(ins) : IsFutureWitness(ins[i].spk) THEN [status |-> "future", secret |-> Zero]
      ELSE IF Len(elig) = 0 THEN [status |-> "noeligible", secret |-> Zero]
      ELSE IF \E i \in 1..Len(elig) : elig[i].key = AnyKey THEN [status |-> "any", secret |-> Zero]
      ELSE IF a = Zero THEN [status |-> "zero", secret |-> Zero]
      ELSE [status |-> "ok", secret |-> PartialSecret(MinOpOf(ins), a)]

(* The sender knows scripts and keys but not yet the spending data: a key   *)
(* counts when its script can be eligible.  sk is a sequence of [spk, key]. *)
SenderKind(spk) ==
  IF IsP2TR(spk) THEN "tr"
  ELSE IF IsP2WPKH(spk) THEN "wpkh"
  ELSE IF IsP2SH(spk) THEN "sh"
  ELSE IF IsP2PKH(spk) THEN "pkh" ELSE "none"
SenderSecret(keys, sk, minop) ==
  LET use == SelectSeq(sk, LAMBDA e : SenderKind(e.spk) # "none")
      a == Sum([i \in 1..Len(use) |-> Contribution(SenderKind(use[i].spk), keys[use[i].key])])
  IN  IF minop = "" THEN [status |-> "noinputs", secret |-> Zero]
      ELSE IF \E i \in 1..Len(sk) : IsFutureWitness(sk[i].spk) THEN [status |-> "future", secret |-> Zero]
      ELSE IF use = <<>> THEN [status |-> "noeligible", secret |-> Zero]
      ELSE IF a = Zero THEN [status |-> "zero", secret |-> Zero]
      ELSE [status |-> "ok", secret |-> PartialSecret(minop, a)]

(* Extended keys: the key derived from the path of an input must be the one *)
(* that spends it (for taproot: as internal key of an output without        *)
(* scripts); otherwise the recipient could not find the outputs and the     *)
(* sender has to refuse.                                                    *)
Spends(keys, spk, key) ==
  LET kind == SenderKind(spk)
      c == CASE kind \in {"tr", "wpkh", "sh"} -> spk[3] [] kind = "pkh" -> spk[4]
      want == CASE kind = "tr" -> "x" [] kind = "sh" -> "h160rs" [] OTHER -> "h160pk"
  IN  K(c) = want /\ IF kind = "tr" THEN SameX(keys[R(c)], keys[key]) ELSE keys[R(c)] = keys[key]
HdSecret(keys, sk, minop) ==
  IF \E i \in 1..Len(sk) : SenderKind(sk[i].spk) # "none" /\ ~Spends(keys, sk[i].spk, sk[i].key)
  THEN [status |-> "mismatch", secret |-> Zero]
  ELSE SenderSecret(keys, sk, minop)
=============================================================================
