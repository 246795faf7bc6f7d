------------------------------ MODULE MC_Code -------------------------------
(* The code format on payloads of KeyBytes bytes: every version, prefix and *)
(* payload from a small set round-trips, and every one or two substituted   *)
(* characters, any change of case of a part, a wrong checksum constant and  *)
(* every truncation is rejected.                                            *)
EXTENDS SPCode
CONSTANTS KeyBytes, Doubles
Payloads == {[i \in 1..KeyBytes |-> (i * a + b) % 256] : a \in {1, 85}, b \in {0, 171, 255}}
VARIABLES fam, ver, extra, pl, s, kind
vars == <<fam, ver, extra, pl, s, kind>>
Body(p, e) == p \o [i \in 1..e |-> 7]
Init == /\ fam \in DOMAIN Hrps /\ ver \in 0..31 /\ extra \in 0..2 /\ pl \in Payloads
        /\ s = Encode(fam, ver, Body(pl, extra)) /\ kind = "valid"
DataPos == {i \in 1..Len(s) : i > Len(Hrps[fam]) + 1}
Put(i, c) == [s EXCEPT ![i] = c]
Pick == ver \in {0, 1} /\ extra = 0 /\ pl = CHOOSE p \in Payloads : TRUE
Subst == /\ kind = "valid" /\ Pick
         /\ \E i \in DataPos, c \in DOMAIN Value : s[i] # c /\ s' = Put(i, c)
         /\ kind' = "bad"
         /\ UNCHANGED <<fam, ver, extra, pl>>
Subst2 == /\ kind = "valid" /\ Doubles = 1 /\ Pick /\ fam = "main" /\ ver = 0
          /\ \E i \in DataPos, j \in DataPos, c \in DOMAIN Value, d \in DOMAIN Value :
               /\ i < j /\ s[i] # c /\ s[j] # d
               /\ s' = [s EXCEPT ![i] = c, ![j] = d]
          /\ kind' = "bad2"
          /\ UNCHANGED <<fam, ver, extra, pl>>
Upper == /\ kind = "valid"
         /\ s' = [i \in 1..Len(s) |-> IF IsLower(s[i]) THEN s[i] - 32 ELSE s[i]] /\ kind' = "upper"
         /\ UNCHANGED <<fam, ver, extra, pl>>
Mixed == /\ kind = "valid" /\ Pick
         /\ \E i \in 1..Len(s) : IsLower(s[i]) /\ s' = Put(i, s[i] - 32)
         /\ kind' = "bad" /\ UNCHANGED <<fam, ver, extra, pl>>
Cut == /\ kind = "valid" /\ Pick
       /\ \E n \in 0..(Len(s) - 1) : s' = SubSeq(s, 1, n)
       /\ kind' = "bad" /\ UNCHANGED <<fam, ver, extra, pl>>
OldSum == /\ kind = "valid"
          /\ LET h == Hrps[fam]
                 d == <<ver>> \o ToFives(Body(pl, extra))
                 f == d \o Checksum(h, d, Bech32Const)
             IN s' = h \o <<49>> \o [i \in 1..Len(f) |-> Charset[f[i] + 1]]
          /\ kind' = "bad" /\ UNCHANGED <<fam, ver, extra, pl>>
Empty == /\ kind = "valid"
         /\ LET h == Hrps[fam] f == Checksum(h, <<>>, Bech32mConst)
            IN s' = h \o <<49>> \o [i \in 1..Len(f) |-> Charset[f[i] + 1]]
         /\ kind' = "bad" /\ UNCHANGED <<fam, ver, extra, pl>>
Padding == /\ kind = "valid" /\ ver = 0 /\ extra = 0
           /\ LET h == Hrps[fam]
                  f0 == ToFives(pl)
                  n == Len(f0)
                  spare == n * 5 - KeyBytes * 8
                  d0 == IF spare > 0 THEN [f0 EXCEPT ![n] = @ + 1] ELSE Append(f0, 0)
                  d == <<0>> \o d0
                  f == d \o Checksum(h, d, Bech32mConst)
              IN s' = h \o <<49>> \o [i \in 1..Len(f) |-> Charset[f[i] + 1]]
           /\ kind' = "bad" /\ UNCHANGED <<fam, ver, extra, pl>>
Next == Subst \/ Subst2 \/ Upper \/ Mixed \/ Cut \/ OldSum \/ Empty \/ Padding
Spec == Init /\ [][Next]_vars
D == Decode(s, KeyBytes)
Accepts == ver < 31 /\ (ver = 0 => extra = 0)
RoundTrip == kind \in {"valid", "upper"} =>
   IF Accepts THEN D = [ok |-> TRUE, why |-> "", family |-> fam, version |-> ver, keys |-> pl] ELSE ~D.ok
Rejected == kind \in {"bad", "bad2"} => ~D.ok
=============================================================================
