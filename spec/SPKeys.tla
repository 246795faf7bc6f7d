-------------------------------- MODULE SPKeys --------------------------------
(* Where the keys of a wallet come from: seeds drawn by the programs, the     *)
(* paths of BIP352 below them, descriptors that carry keys from one command   *)
(* to another, and the code a wallet shows.                                   *)
(*                                                                            *)
(* A key is [seed, path]: seed 0 is none the programs made. m: the       *)
(* key sets made so far, each [seed, net]. A descriptor is                    *)
(* [set |-> its number in m, role |-> "scan" or "spend", form |-> how the key *)
(* is written].                                                               *)
EXTENDS Naturals, Sequences, FiniteSets

Nets == {"bitcoin", "testnet", "testnet4", "signet", "regtest"}
Family(net) == CASE net = "bitcoin" -> "sp" [] net = "regtest" -> "sprt" [] OTHER -> "tsp"
(* BIP352 / BIP44: coin type 0 on the main network, 1 on every other          *)
Account(net) == <<"352'", IF net = "bitcoin" THEN "0'" ELSE "1'", "0'">>
PathOf(role, net) == Account(net) \o <<IF role = "scan" THEN "1'" ELSE "0'", "0">>
Key(seed, path) == [seed |-> seed, path |-> path]
KeyFor(seed, role, net) == Key(seed, PathOf(role, net))

(* ----------------------------------------------------------- descriptors   *)
(* private, public: as printed; bare: private without origin and checksum;    *)
(* wif: the key itself; tree: with another private key of the same set in a   *)
(* script tree; wild: with a wildcard; multi: with two paths; other: no        *)
(* taproot descriptor; cut: the text lacks its end; sum: its checksum is of    *)
(* another text                                                               *)
Forms == {"private", "public", "bare", "wif", "tree", "wild", "multi", "other", "cut", "sum"}
Broken == {"wild", "multi", "other", "cut", "sum"}
KeyOf(m, d) == KeyFor(m[d.set].seed, d.role, m[d.set].net)
(* the keys written in it                                                     *)
Holds(m, d) == IF d.form = "tree" THEN {KeyFor(m[d.set].seed, r, m[d.set].net) : r \in {"scan", "spend"}} ELSE {KeyOf(m, d)}
(* must be taken / must not be                                                *)
TakesScan(d) == d.form \in {"private", "bare"}
TakesSpend(d) == d.form \in {"private", "public", "bare"}
RefusesScan(d) == d.form \in Broken \cup {"public"}
RefusesSpend(d) == d.form \in Broken

(* ------------------------------------------------------------ the wallet   *)
NoWallet == [there |-> FALSE, scan |-> Key(0, <<>>), spend |-> Key(0, <<>>), net |-> "", labels |-> {}]
Wallet(scan, spend, net) == [there |-> TRUE, scan |-> scan, spend |-> spend, net |-> net, labels |-> {}]
(* a code: its keys, label ("" none) and who the label is made with           *)
CodeOf(w) == [scan |-> w.scan, spend |-> w.spend, label |-> "", by |-> Key(0, <<>>), family |-> Family(w.net)]
LabelOf(w, l) == [CodeOf(w) EXCEPT !.label = l, !.by = w.scan]

(* ---------------------------------------------------------- the commands   *)
(* the answers there may be: "ok" or "no"                                     *)
InitMay(w, ds, dp) ==
  IF w.there \/ RefusesScan(ds) \/ RefusesSpend(dp) THEN {"no"}
  ELSE IF TakesScan(ds) /\ TakesSpend(dp) THEN {"ok"} ELSE {"ok", "no"}
Inited(m, w, ds, dp, net, ans) == IF ans = "ok" THEN Wallet(KeyOf(m, ds), KeyOf(m, dp), net) ELSE w
(* a labelled code takes the private scan key of the wallet                   *)
LabelMay(m, w, ds) ==
  IF ~w.there \/ RefusesScan(ds) \/ w.scan \notin Holds(m, ds) THEN {"no"}
  ELSE IF TakesScan(ds) THEN {"ok"} ELSE {"ok", "no"}
(* so does a scan, with a code of the wallet's spend key: with other keys it   *)
(* would pass by what is paid to the wallet                                   *)
Foreign(w, code) == code.spend # w.spend \/ code.label # ""
ScanMay(m, w, ds, code) ==
  IF ~w.there \/ RefusesScan(ds) \/ w.scan \notin Holds(m, ds) \/ Foreign(w, code) THEN {"no"}
  ELSE IF TakesScan(ds) /\ w.net = "regtest" /\ code = CodeOf(w) THEN {"ok"} ELSE {"ok", "no"}
=============================================================================
