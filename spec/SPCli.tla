-------------------------------- MODULE SPCli --------------------------------
(* The command line wallet: what its file holds, a scan in progress, and the *)
(* node it talks to.  Universe as in SPCanon; u.txs[t].elig tells whether t  *)
(* has a usable input, u.txs[t].vals are the amounts of its outputs.         *)
(*   disk    what is stored: [ix, chain], ix = [labels, idx, gtxs, anchors,  *)
(*           read], idx holds <<t, out, label>>, read the blocks read        *)
(*   live    a scan is running; mem is what it holds, past what it held      *)
(*   node    tip of the node (0: the genesis block), tips: since the start   *)
EXTENDS SPCanon

NewFile == [ix |-> [labels |-> {"0"}, idx |-> {}, gtxs |-> {}, anchors |-> {}, read |-> {}], chain |-> <<>>]
NewCli == [disk |-> NewFile, mem |-> NewFile, past |-> {}, live |-> FALSE, node |-> 0, tips |-> {}]

(* A transaction is kept when it pays the wallet or spends from it; where it *)
(* is mined is recorded every time it is met, as it may move.                *)
ReadTx(u, w, t, b) ==
  LET found == IF u.txs[t].elig THEN {<<t, s.out, s.label>> : s \in Found(u, t, w.ix.labels)} ELSE {}
      idx == w.ix.idx \union found
      pays == \E x \in idx : x[1] = t
      spends == \E x \in idx : <<x[1], x[2]>> \in Spends(u, t)
  IN  IF pays \/ spends
      THEN [w EXCEPT !.ix.idx = idx, !.ix.gtxs = @ \union {t}, !.ix.anchors = @ \union {<<t, b>>}]
      ELSE w
ReadBlock(u, w, b) ==
  LET one(x, t) == IF u.txs[t].cb THEN x ELSE ReadTx(u, x, t, b)
      done == FoldLeft(one, w, u.blocks[b].txs)
  IN  [done EXCEPT !.chain = Follow(u, w.chain, b), !.ix.read = @ \union {b}]

(* --------------------------------------------------------------- the steps *)
AddCode(c, m) == [c EXCEPT !.disk.ix.labels = @ \union {m}]
MoveNode(c, b) == [c EXCEPT !.node = b, !.tips = @ \union {b}]
Start(c) == [c EXCEPT !.live = TRUE, !.mem = c.disk, !.past = {c.disk}, !.tips = {c.node}]
Block(u, c, b) == LET n == ReadBlock(u, c.mem, b) IN [c EXCEPT !.mem = n, !.past = @ \union {n}]
(* a scan ends when it reached a tip the node had meanwhile                  *)
Reached(c) == \E b \in c.tips : b = 0 \/ b \in Elems(c.mem.chain)
NothingSkipped(c) == Elems(c.mem.chain) \subseteq c.mem.ix.read
Idle(c) == [c EXCEPT !.live = FALSE, !.past = {}, !.tips = {}, !.mem = NewFile]
Finish(c) == Idle([c EXCEPT !.disk = c.mem])
(* a scan that fails may have stored anything it held on the way             *)
Fail(c) == {Idle([c EXCEPT !.disk = p]) : p \in c.past}
(* the block a node whose tip is n has after the blocks of chain c           *)
NextBlock(u, c, n) ==
  LET p == PathTo(u, n)
      shared == {i \in 1..Len(p) : \A j \in 1..i : j <= Len(c) /\ c[j] = p[j]}
  IN  IF Cardinality(shared) = Len(p) THEN 0 ELSE p[Cardinality(shared) + 1]

(* ------------------------------------------------------------------- money *)
Value(u, x) == u.txs[x[1]].vals[x[2] + 1]
Worth(u, S) == MapThenSumSet(LAMBDA x : Value(u, x), S)
FileCoins(u, w) == CoinsOf(u, w, w.ix.idx)
FileSettled(u, w) == LET conf == Confirmed(u, w) IN {x \in FileCoins(u, w) : x[1] \in conf}
Balance(u, w) ==
  LET coins == TLCEval(FileCoins(u, w))
      settled == TLCEval(FileSettled(u, w))
      change == {x \in coins \ settled : x[3] = "0"}
  IN  [total |-> Worth(u, settled), spendable |-> Worth(u, settled), immature |-> 0,
       pending |-> Worth(u, coins \ settled), trusted |-> Worth(u, change),
       untrusted |-> Worth(u, coins \ (settled \union change))]

(* A payment of e.value: e.ins are the outputs spent, e.outs [value, who] with *)
(* who one of recipient, change (found by the wallet under its change code)    *)
(* and other; e.signed whether each input carries a valid signature, e.size    *)
(* the virtual size of the result, e.lock the height it waits for.             *)
Largest(u, w) == 200 + 80 * Cardinality(FileCoins(u, w))   \* fee of spending everything at 1 sat/vB
Slack == 1000                                              \* what is not worth a change output
PaymentOk(u, w, e) ==
  LET coins == FileCoins(u, w)
      ops == {<<x[1], x[2]>> : x \in coins}
      in == MapThenSumSet(LAMBDA o : u.txs[o[1]].vals[o[2] + 1], Elems(e.ins))
      out == FoldLeft(LAMBDA a, o : a + o.value, 0, e.outs)
      who(x) == {i \in 1..Len(e.outs) : e.outs[i].who = x}
  IN  IF ~e.ok THEN Worth(u, coins) < e.value + Largest(u, w)
      ELSE /\ e.ins # <<>>
           /\ Cardinality(Elems(e.ins)) = Len(e.ins)
           /\ Elems(e.ins) \subseteq ops
           /\ Cardinality(who("recipient")) = 1 /\ \A i \in who("recipient") : e.outs[i].value = e.value
           /\ Cardinality(who("change")) <= 1
           /\ who("recipient") \union who("change") = 1..Len(e.outs)
           /\ in - out = e.fee /\ e.fee >= e.size /\ e.fee <= e.size + Slack
           /\ Len(e.signed) = Len(e.ins) /\ \A i \in 1..Len(e.signed) : e.signed[i]
           /\ e.lock <= Len(w.chain)

(* Signing what several people pay with: e.own, for each of the wallet's own   *)
(* inputs, whether it has a good signature now; e.rest: nothing else changed.  *)
(* A signature commits to every output spent, so without them (not complete)   *)
(* there is none.                                                              *)
SignOk(e) ==
  CASE e.ans = "ok" -> e.rest /\ (IF e.complete THEN e.own # <<>> /\ \A i \in 1..Len(e.own) : e.own[i]
                                  ELSE e.own = <<>> \/ \A i \in 1..Len(e.own) : ~e.own[i])
    [] e.ans = "no" -> e.kind \in {"blind", "empty"}
    [] OTHER -> FALSE

(* -------------------------------------------------------------- properties *)
(* what one scan of the chain from nothing finds                             *)
Fresh(u, chain, labels) ==
  LET empty == [NewFile EXCEPT !.ix.labels = labels]
  IN  FoldLeft(LAMBDA w, b : ReadBlock(u, w, b), empty, chain)
SpentByPending(u, w) ==
  UNION {Spends(u, t) : t \in Canonical(u, w) \ Confirmed(u, w)}
SameAsFresh(u, w) ==
  LET f == Fresh(u, w.chain, w.ix.labels)
  IN  FileSettled(u, w) = {x \in FileCoins(u, f) : <<x[1], x[2]>> \notin SpentByPending(u, w)}
NoMoreThanFresh(u, w) == FileSettled(u, w) \subseteq FileCoins(u, Fresh(u, w.chain, w.ix.labels))
=============================================================================
