------------------------------- MODULE SPStore -------------------------------
(* The file a command line wallet keeps: made once, read by every command,   *)
(* written at the end of those that change the wallet (a scan also writes    *)
(* while it runs). A write may fail because there is no room, and a crash    *)
(* may leave any part of it.                                                 *)
(*                                                                           *)
(* A universe u: pays, the payments on the only chain there is, each         *)
(* [b |-> block, label |-> "" or the label of the code paid, v |-> amount];  *)
(* n, the number of blocks.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt

(* ------------------------------------------------- what the wallet knows  *)
NewState == [labels |-> {}, tip |-> 0, found |-> {}]
Label(s, m) == [s EXCEPT !.labels = @ \cup {m}]
Known(s, m) == m \in {"", "0"} \cup s.labels
Seen(u, s, from, to) == {p \in 1..Len(u.pays) : u.pays[p].b > from /\ u.pays[p].b <= to /\ Known(s, u.pays[p].label)}
Scan(u, s, to) == IF to <= s.tip THEN s ELSE [s EXCEPT !.tip = to, !.found = @ \cup Seen(u, s, s.tip, to)]
Worth(u, s) == FoldSet(LAMBDA p, acc : u.pays[p].v + acc, 0, s.found)

(* -------------------------------------------------------------- the file  *)
(* none: there is no file; part: there is one, but nothing was ever stored   *)
(* in it; whole: it holds the wallet in state s; torn: behind that there is  *)
(* a part of what was to be stored next                                      *)
NoFile == [st |-> "none", s |-> NewState]
Part == [st |-> "part", s |-> NewState]
Whole(s) == [st |-> "whole", s |-> s]
Torn(s) == [st |-> "torn", s |-> s]
(* what can be left when storing does not succeed                            *)
Left(f) == CASE f.st = "none" -> {NoFile, Part} [] f.st = "part" -> {Part} [] OTHER -> {f, Torn(f.s)}

(* ---------------------------------------------------------- the commands  *)
(* each gives the files there may be after the command answered ans ("ok",   *)
(* "no": it failed and said so); no file: the answer is not allowed. A torn  *)
(* file may be refused, or be read as the state it holds in whole.           *)
Answers == {"ok", "no"}
Make(f, ans, room) ==
  IF ans = "ok" THEN (IF f.st \in {"none", "part"} THEN {Whole(NewState)} ELSE {})
  ELSE (IF f.st # "none" THEN {f} ELSE {}) \cup (IF room THEN {} ELSE Left(f))
Write(f, s, ans, room) ==
  CASE f.st \in {"none", "part"} -> IF ans = "no" THEN {f} ELSE {}
    [] f.st = "whole" -> IF ans = "ok" THEN {Whole(s)} ELSE IF room THEN {} ELSE Left(f)
    [] f.st = "torn" -> IF ans = "ok" THEN {Whole(s)} ELSE {f}
AddLabel(f, m, ans, room) == Write(f, Label(f.s, m), ans, room)
(* a scan also stores on its way, and what it said to have stored so is there *)
ScanTo(u, f, to, ans, room, said) ==
  IF f.st = "whole" /\ ans = "no" /\ ~room
  THEN UNION {Left(Whole(Scan(u, f.s, i))) : i \in {j \in f.s.tip..to : j >= said}}
  ELSE Write(f, Scan(u, f.s, to), ans, room)
(* A scan that is ended by force after it got block `got`. What it said to   *)
(* have stored (everything up to block `said`, 0: nothing) is there.         *)
Killed(u, f, got, said) ==
  IF f.st = "whole"
  THEN {Whole(Scan(u, f.s, i)) : i \in {j \in 0..u.n : j >= said /\ j <= got}} \cup (IF said = 0 THEN {f} ELSE {})
  ELSE {}
(* The sum shown.                                                            *)
Look(u, f, ans, total) ==
  CASE f.st \in {"none", "part"} -> IF ans = "no" THEN {f} ELSE {}
    [] f.st = "whole" -> IF ans = "ok" /\ total = Worth(u, f.s) THEN {f} ELSE {}
    [] f.st = "torn" -> IF ans = "no" THEN {f} ELSE IF total = Worth(u, f.s) THEN {f, Whole(f.s)} ELSE {}
(* What a crash leaves of a write that has just been done to f: all before   *)
(* it, and, inside it, a part.                                               *)
Cut(f, inside) == CASE f.st \in {"none", "part"} -> Part [] OTHER -> IF inside THEN Torn(f.s) ELSE f
(* The user cuts off what is behind the last thing stored in whole.          *)
Repair(f) == IF f.st = "torn" THEN Whole(f.s) ELSE f
=============================================================================
