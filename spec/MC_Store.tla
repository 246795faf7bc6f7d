------------------------------- MODULE MC_Store -------------------------------
(* Every history of commands, lacking room, crashes and scans ended by force: *)
(* what a command said to have stored is there until a crash takes it, and    *)
(* nothing else ever is.                                                      *)
EXTENDS SPStore, Json, TLC
CONSTANTS Depth
U == [n |-> 2, pays |-> <<[b |-> 1, label |-> "", v |-> 1], [b |-> 1, label |-> "1", v |-> 2],
                          [b |-> 2, label |-> "1", v |-> 4], [b |-> 2, label |-> "", v |-> 8]>>]
VARIABLES hist, f, prev, said, given
(* prev: the files there may have been before the last write, none when the   *)
(* last command was no write that succeeded; said: what the user was told to  *)
(* be stored; given: every label ever asked for                               *)
vars == <<hist, f, prev, said, given>>
NoState == [labels |-> {}, tip |-> 0, found |-> {}]
Init == hist = <<>> /\ f = NoFile /\ prev = {} /\ said = NoState /\ given = {}
Did(o) == hist' = Append(hist, o)
Wrote(ans, room) == /\ prev' = IF ans = "ok" /\ f.st # "torn" THEN {f} ELSE {}
                    /\ said' = IF ans = "ok" THEN f'.s ELSE said
New == \E ans \in Answers, room \in BOOLEAN :
         /\ f' \in Make(f, ans, room) /\ Wrote(ans, room) /\ UNCHANGED given
         /\ Did([op |-> "new", room |-> room, x |-> 0])
Lab == \E ans \in Answers, room \in BOOLEAN :
         /\ f' \in AddLabel(f, "1", ans, room) /\ Wrote(ans, room) /\ given' = given \cup {"1"}
         /\ Did([op |-> "label", room |-> room, x |-> 1])
Sc == \E ans \in Answers, room \in BOOLEAN, to \in 1..U.n, i \in 0..U.n :
         /\ to >= f.s.tip /\ i <= to /\ (i > 0 => i > f.s.tip /\ ans = "no" /\ f.st = "whole")
         /\ f' \in ScanTo(U, f, to, ans, room, i) /\ UNCHANGED given
         /\ IF i > 0 THEN prev' = {} /\ said' = Scan(U, f.s, i) ELSE Wrote(ans, room)
         /\ Did([op |-> "scan", room |-> room, x |-> to])
(* stopped when it asks for block x: everything before it was sent           *)
Kill == \E x \in 1..U.n, i \in 0..U.n :
          /\ f.st = "whole" /\ x > f.s.tip /\ i < x
          /\ f' \in Killed(U, f, x - 1, i) /\ prev' = {} /\ UNCHANGED given
          /\ said' = IF i = 0 THEN said ELSE Scan(U, f.s, i)
          /\ Did([op |-> "kill", room |-> TRUE, x |-> x])
Crash == \E p \in prev, inside \in BOOLEAN :
           /\ f' = Cut(p, inside) /\ prev' = {} /\ said' = f'.s /\ UNCHANGED given
           /\ Did([op |-> "cut", room |-> inside, x |-> 0])
Remove == f.st = "part" /\ f' = NoFile /\ prev' = {} /\ UNCHANGED <<said, given>> /\ Did([op |-> "remove", room |-> TRUE, x |-> 0])
Mend == f.st = "torn" /\ f' = Repair(f) /\ prev' = {} /\ UNCHANGED <<said, given>> /\ Did([op |-> "repair", room |-> TRUE, x |-> 0])
Balance == \E ans \in Answers :
             /\ f' \in Look(U, f, ans, Worth(U, f.s)) /\ prev' = {} /\ UNCHANGED <<said, given>>
             /\ (ans = "ok" => said.found \subseteq f.s.found)
             /\ Did([op |-> "balance", room |-> TRUE, x |-> 0])
Next == Len(hist) < Depth /\ (New \/ Lab \/ Sc \/ Kill \/ Crash \/ Remove \/ Mend \/ Balance)
Spec == Init /\ [][Next]_vars

Within(a, b) == a.labels \subseteq b.labels /\ a.tip <= b.tip /\ a.found \subseteq b.found
Kept == IF f.st \in {"none", "part"} THEN said = NoState ELSE Within(said, f.s)
(* nothing that was not asked for, nothing that is not on the chain          *)
Honest == /\ f.s.labels \subseteq given
          /\ f.s.found \subseteq {p \in 1..Len(U.pays) : U.pays[p].b <= f.s.tip /\ Known(f.s, U.pays[p].label)}
(* every payment to the code itself up to where the scans came               *)
Complete == \A p \in 1..Len(U.pays) : U.pays[p].b <= f.s.tip /\ U.pays[p].label = "" => p \in f.s.found
(* a file that is read shows what is stored, and is no other afterwards      *)
Reading == \A ans \in Answers : \A t \in 0..15 : \A g \in Look(U, f, ans, t) : g.s = f.s /\ (ans = "ok" => t = Worth(U, f.s))
(* with room every command on a whole wallet succeeds, and there is always an answer *)
Answered ==
  /\ f.st = "whole" => AddLabel(f, "1", "no", TRUE) = {} /\ AddLabel(f, "1", "ok", TRUE) # {}
  /\ \A room \in BOOLEAN : \E ans \in Answers : Make(f, ans, room) # {} /\ \E a2 \in Answers : AddLabel(f, "1", a2, room) # {}
(* whole histories that begin with a wallet being made                        *)
Emit == Len(hist) < Depth \/ hist[1].op # "new" \/ PrintT("OUT " \o ToJson([ops |-> hist]))
=============================================================================
