------------------------------- MODULE SPCode -------------------------------
(* Silent payment codes as character strings.  A string is a sequence of   *)
(* byte values (ASCII where printable), keys are sequences of 33 bytes.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bitwise

Charset == << 113, 112, 122, 114, 121, 57, 120, 56, 103, 102, 50, 116, 118, 100, 119, 48,
              115, 51, 106, 110, 53, 52, 107, 104, 99, 101, 54, 109, 117, 97, 55, 108 >>
Value == [c \in {Charset[i] : i \in 1..32} |-> CHOOSE v \in 0..31 : Charset[v + 1] = c]

IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]

----------------------------------------------------------------------------
(* checksum over GF(32), BIP173 with the final constant of BIP350           *)
Gens == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
PolyStep(chk, v) ==
  LET top == chk \div 33554432
      base == ((chk % 33554432) * 32) ^^ v
      x(i, acc) == IF (top \div (2 ^ (i - 1))) % 2 = 1 THEN acc ^^ Gens[i] ELSE acc
  IN  x(5, x(4, x(3, x(2, x(1, base)))))
Polymod(values) == FoldLeft(PolyStep, 1, values)
Expand(hrp) == [i \in 1..Len(hrp) |-> hrp[i] \div 32] \o <<0>> \o [i \in 1..Len(hrp) |-> hrp[i] % 32]
Bech32mConst == 734539939
Bech32Const == 1
Verify(hrp, data) == Polymod(Expand(hrp) \o data) = Bech32mConst
Checksum(hrp, data, const) ==
  LET p == Polymod(Expand(hrp) \o data \o <<0, 0, 0, 0, 0, 0>>) ^^ const
  IN  [i \in 1..6 |-> (p \div (32 ^ (6 - i))) % 32]

----------------------------------------------------------------------------
(* regrouping of 8-bit and 5-bit digits, most significant bits first        *)
Bit(seq, w, i) == (seq[(i \div w) + 1] \div (2 ^ (w - 1 - (i % w)))) % 2   \* i counts from 0
ToFives(bytes) ==
  LET n == (Len(bytes) * 8 + 4) \div 5
      bit(i) == IF i < Len(bytes) * 8 THEN Bit(bytes, 8, i) ELSE 0
  IN  [g \in 1..n |-> bit(5 * g - 5) * 16 + bit(5 * g - 4) * 8 + bit(5 * g - 3) * 4 + bit(5 * g - 2) * 2 + bit(5 * g - 1)]
ToBytes(fives) ==
  LET n == (Len(fives) * 5) \div 8
      bit(i) == Bit(fives, 5, i)
  IN  [g \in 1..n |-> bit(8 * g - 8) * 128 + bit(8 * g - 7) * 64 + bit(8 * g - 6) * 32 + bit(8 * g - 5) * 16
                      + bit(8 * g - 4) * 8 + bit(8 * g - 3) * 4 + bit(8 * g - 2) * 2 + bit(8 * g - 1)]
(* fewer than five bits of padding, all zero *)
Canonical(fives) == ToFives(ToBytes(fives)) = fives

----------------------------------------------------------------------------
Hrps == [main |-> <<115, 112>>, test |-> <<116, 115, 112>>, regtest |-> <<115, 112, 114, 116>>]
Encode(family, version, payload) ==
  LET hrp == Hrps[family]
      data == <<version>> \o ToFives(payload)
      full == data \o Checksum(hrp, data, Bech32mConst)
  IN  hrp \o <<49>> \o [i \in 1..Len(full) |-> Charset[full[i] + 1]]

MaxChars == 1023
No(why) == [ok |-> FALSE, why |-> why, family |-> "", version |-> 0, keys |-> <<>>]
(* KeyBytes is the length of the two keys together: 66 in the protocol *)
Decode(s, KeyBytes) ==
  LET l == TLCEval(LowerAll(s))
      seps == {i \in 1..Len(s) : s[i] = 49}
      sep == CHOOSE i \in seps : \A j \in seps : j <= i
      hrp == SubSeq(l, 1, sep - 1)
      chars == SubSeq(l, sep + 1, Len(l))
      data == TLCEval([i \in 1..Len(chars) |-> Value[chars[i]]])
      fam == {f \in DOMAIN Hrps : Hrps[f] = hrp}
      body == SubSeq(data, 1, Len(data) - 6)
      rest == Tail(body)
      bytes == TLCEval(ToBytes(rest))
  IN  IF \E i \in 1..Len(s) : s[i] \notin 33..126 THEN No("character")
      ELSE IF (\E i \in 1..Len(s) : IsUpper(s[i])) /\ (\E i \in 1..Len(s) : IsLower(s[i])) THEN No("case")
      ELSE IF Len(s) > MaxChars THEN No("length")
      ELSE IF seps = {} THEN No("separator")
      ELSE IF sep = 1 THEN No("prefix")
      ELSE IF \E i \in 1..Len(chars) : chars[i] \notin DOMAIN Value THEN No("character")
      ELSE IF Len(chars) < 6 THEN No("checksum")
      ELSE IF ~Verify(hrp, data) THEN No("checksum")
      ELSE IF fam = {} THEN No("prefix")
      ELSE IF body = <<>> THEN No("payload")
      ELSE IF body[1] = 31 THEN No("version")
      ELSE IF body[1] = 0 /\ (Len(bytes) # KeyBytes \/ ~Canonical(rest)) THEN No("payload")
      ELSE IF Len(bytes) < KeyBytes THEN No("payload")
      ELSE [ok |-> TRUE, why |-> "", family |-> CHOOSE f \in fam : TRUE, version |-> body[1],
            keys |-> SubSeq(bytes, 1, KeyBytes)]
=============================================================================
