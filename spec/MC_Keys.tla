-------------------------------- MODULE MC_Keys -------------------------------
(* Every way key sets are made, combined into wallets, and used: the keys of   *)
(* a wallet are those given to it, can be found again from its seed alone,     *)
(* and belong to no other wallet made by the programs.                         *)
EXTENDS SPKeys, Json, TLC
CONSTANTS Depth, MCNets, MCForms
VARIABLES hist, made, w, w2, codes, given
(* w: the wallet of the first program, w2 of the second; codes: all shown;     *)
(* given: the descriptors the wallet was made from                             *)
vars == <<hist, made, w, w2, codes, given>>
Init == hist = <<>> /\ made = <<>> /\ w = NoWallet /\ w2 = NoWallet /\ codes = {} /\ given = <<>>
Did(o) == hist' = Append(hist, o)
Descs == [set : 1..Len(made), role : {"scan", "spend"}, form : MCForms]
Op(op, net, a, b, x) == [op |-> op, net |-> net, a |-> a, b |-> b, x |-> x]
None == [set |-> 0, role |-> "", form |-> ""]
(* a seed is one never seen before                                             *)
Fresh == Len(made) + 1
Generate == \E net \in MCNets : /\ made' = Append(made, [seed |-> Fresh, net |-> net, prog |-> 1])
                                /\ Did(Op("generate", net, None, None, "")) /\ UNCHANGED <<w, w2, codes, given>>
Create == \E net \in MCNets : /\ IF w2.there THEN UNCHANGED <<made, w2>>
                                 ELSE /\ made' = Append(made, [seed |-> Fresh, net |-> net, prog |-> 2])
                                      /\ w2' = Wallet(KeyFor(Fresh, "scan", net), KeyFor(Fresh, "spend", net), net)
                              /\ Did(Op("create", net, None, None, "")) /\ UNCHANGED <<w, codes, given>>
Make == \E ds, dp \in Descs, net \in MCNets : \E ans \in InitMay(w, ds, dp) :
          /\ w' = Inited(made, w, ds, dp, net, ans)
          /\ given' = IF ans = "ok" THEN <<ds, dp, net>> ELSE given
          /\ Did(Op("init", net, ds, dp, "")) /\ UNCHANGED <<made, w2, codes>>
Show == \E p \in {w, w2} : /\ p.there /\ codes' = codes \cup {CodeOf(p)}
                           /\ Did(Op(IF p = w THEN "code" ELSE "code2", "", None, None, "")) /\ UNCHANGED <<made, w, w2, given>>
Lab == \/ \E ds \in Descs : \E ans \in LabelMay(made, w, ds) :
            /\ codes' = IF ans = "ok" THEN codes \cup {LabelOf(w, "1")} ELSE codes
            /\ Did(Op("label", "", ds, None, "1")) /\ UNCHANGED <<made, w, w2, given>>
       \/ /\ w2.there /\ codes' = codes \cup {LabelOf(w2, "1")}
          /\ Did(Op("label2", "", None, None, "1")) /\ UNCHANGED <<made, w, w2, given>>
Scan == \E ds \in Descs, c \in codes : \E ans \in ScanMay(made, w, ds, c) :
          /\ w.there /\ w.net = "regtest"
          /\ Did(Op("scan", "", ds, None, CHOOSE i \in {"own", "label", "other"} :
                    i = IF c.label # "" /\ c.spend = w.spend THEN "label" ELSE IF c = CodeOf(w) THEN "own" ELSE "other"))
          /\ UNCHANGED <<made, w, w2, codes, given>>
Next == Len(hist) < Depth /\ (Generate \/ Create \/ Make \/ Show \/ Lab \/ Scan)
Spec == Init /\ [][Next]_vars

(* no two of them share a key                                                  *)
Distinct == \A i, j \in 1..Len(made) : i # j => made[i].seed # made[j].seed
            /\ \A r, s \in {"scan", "spend"} : KeyFor(made[i].seed, r, made[i].net) # KeyFor(made[j].seed, s, made[j].net)
(* what is paid to a code of a wallet made from one set in the intended way    *)
(* can be found again with the seed and the network alone                      *)
Recovered ==
  /\ w.there /\ given[1].set = given[2].set /\ given[1].role = "scan" /\ given[2].role = "spend" /\ given[3] = made[given[1].set].net
     => LET s == made[given[1].set] IN CodeOf(w) = CodeOf(Wallet(KeyFor(s.seed, "scan", s.net), KeyFor(s.seed, "spend", s.net), s.net))
  /\ w2.there => \E s \in {made[i] : i \in 1..Len(made)} : CodeOf(w2) = CodeOf(Wallet(KeyFor(s.seed, "scan", s.net), KeyFor(s.seed, "spend", s.net), s.net))
(* every code shown can be found by a wallet there is                          *)
Found == \A c \in codes : \E p \in {w, w2} : p.there /\ c.scan = p.scan /\ c.spend = p.spend /\ c.family = Family(p.net)
                                            /\ (c.label # "" => c.by = p.scan)
(* a wallet keeps its keys                                                     *)
Same == [][(w.there => w' = w) /\ (w2.there => w2' = w2)]_vars
State == <<made, w, w2, codes, given, Len(hist)>>
Emit == Len(hist) < Depth \/ hist[1].op # "generate" \/ hist[2].op = "code" \/ hist[Depth].op \in {"create", "generate", "init"} \/ PrintT("OUT " \o ToJson([ops |-> hist]))
=============================================================================
