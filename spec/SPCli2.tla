------------------------------- MODULE SPCli2 --------------------------------
(* The light client: a wallet file, scans block by block (a node that serves *)
(* blocks) and scans by filters (a node that serves filters, and a server    *)
(* that serves tweaks).  Universe as in SPCanon; u.txs[t].elig tells whether *)
(* t has a usable input, u.txs[t].vals are the amounts of its outputs,       *)
(* u.bday is the height the wallet starts at.                                *)
(*   disk    what is stored: [ix, chain, cover, odd], ix as in SPIndex,      *)
(*           chain the blocks it knows to be in the best chain, lowest first *)
(*           and not necessarily all of them, cover the blocks it examined,  *)
(*           odd whether a scan by filters ran while it held a block that    *)
(*           had been replaced                                               *)
(*   live    a scan block by block is running; mem, past: what it holds and  *)
(*           what it held                                                    *)
(*   node    tip of the node (0: the genesis block), tips: since the start   *)
EXTENDS SPCanon

NewFile == [ix |-> [EmptyIndex EXCEPT !.labels = {"0"}], chain |-> <<>>, cover |-> {}, odd |-> FALSE]
NewCli == [disk |-> NewFile, mem |-> NewFile, past |-> {}, live |-> FALSE, node |-> 0, tips |-> {}]

(* ------------------------------------------------------------------- chain *)
Height(u, b) == IF b = 0 THEN 0 ELSE u.blocks[b].height
Sorted(u, S) == SetToSortSeq(S, LAMBDA a, b : Height(u, a) < Height(u, b))
Top(c) == IF c = <<>> THEN 0 ELSE c[Len(c)]
(* b and x are in one chain                                                  *)
Together(u, x, b) == x \in Elems(PathTo(u, b)) \/ b \in Elems(PathTo(u, x))
(* a block is added on its own: what it replaces goes, with what is above    *)
Insert(u, c, b) ==
  IF b = 0 \/ b \in Elems(c) THEN c
  ELSE LET S == Elems(c)
       IN  IF \E x \in S : Height(u, x) = Height(u, b)
           THEN Sorted(u, {x \in S : Height(u, x) < Height(u, b)} \union {b})
           ELSE Sorted(u, S \union {b})
(* a block is added with the chain it is in: what does not belong to it goes *)
Connect(u, c, b) ==
  LET shared == {Height(u, x) : x \in Elems(c) \intersect Elems(PathTo(u, b))}
  IN  Sorted(u, {x \in Elems(c) : shared # {} /\ Height(u, x) <= Max(shared)} \union {b})

(* ------------------------------------------------------------------- scans *)
Payable(u, b) == {t \in Elems(u.blocks[b].txs) : u.txs[t].elig /\ ~u.txs[t].cb}
FileCoins(u, w) == CoinsOf(u, w, Indexed(u, w.ix))
ReadBlock(u, w, b) ==
  [w EXCEPT !.ix = ApplyBlock(u, @, b, Payable(u, b), "rel"), !.chain = Connect(u, @, b), !.cover = @ \union {b}]

(* By filters: a block is fetched when its filter has the first script some  *)
(* tweak of it leads to, or the script of an output that can be spent.  What *)
(* it pays can be spent in the blocks that follow.                           *)
FromHeight(u, w) == LET h == Height(u, Top(w.chain)) IN IF u.bday <= h THEN h ELSE u.bday
Told(u, w, b) == {t \in Payable(u, b) : Found(u, t, w.ix.labels) # {}}
SpentIn(u, b) == UNION {Spends(u, t) : t \in Elems(u.blocks[b].txs)}
Filtered(u, s, b) ==
  LET told == TLCEval(Told(u, s.w, b))
  IN  IF told = {} /\ SpentIn(u, b) \intersect s.watch = {} THEN [s EXCEPT !.w.cover = @ \union {b}]
      ELSE [w |-> [s.w EXCEPT !.ix = ApplyBlock(u, @, b, told, "rel"), !.chain = Insert(u, @, b), !.cover = @ \union {b}],
            watch |-> s.watch \union UNION {{<<t, x.out>> : x \in Found(u, t, s.w.ix.labels)} : t \in told}]
FilterStart(u, w, tip) ==
  [w |-> [w EXCEPT !.odd = @ \/ \E x \in Elems(w.chain) : ~Together(u, x, tip)],
   watch |-> {<<x[1], x[2]>> : x \in FileCoins(u, w)}]
(* from: the height that was asked for, -1 if none was. Who asks for a later *)
(* one than that of the last scan does not want what lies between.           *)
FilterSeq(u, w, tip, from) ==
  LET h == IF from >= 0 THEN from ELSE FromHeight(u, w) IN SelectSeq(PathTo(u, tip), LAMBDA b : Height(u, b) >= h)
Unwanted(u, w, tip, from) == {b \in Elems(PathTo(u, tip)) : Height(u, b) < from}
FilterScan(u, w, tip, from) ==
  LET done == FoldLeft(LAMBDA s, b : Filtered(u, s, b), FilterStart(u, w, tip), FilterSeq(u, w, tip, from)).w
  IN  [done EXCEPT !.chain = Insert(u, @, tip), !.cover = @ \union Unwanted(u, w, tip, from)]
(* what it may have stored when it fails on the way                          *)
FilterParts(u, w, tip, from) ==
  LET bs == FilterSeq(u, w, tip, from)
  IN  {w} \union {FoldLeft(LAMBDA s, b : Filtered(u, s, b), FilterStart(u, w, tip), SubSeq(bs, 1, i)).w : i \in 1..Len(bs)}

(* --------------------------------------------------------------- the steps *)
AddCode(u, c, m) == [c EXCEPT !.disk.ix = AddLabel(u, @, m)]
MoveNode(c, b) == [c EXCEPT !.node = b, !.tips = @ \union {b}]
Start(c) == [c EXCEPT !.live = TRUE, !.mem = c.disk, !.past = {c.disk}, !.tips = {c.node}]
Block(u, c, b) == LET n == ReadBlock(u, c.mem, b) IN [c EXCEPT !.mem = n, !.past = @ \union {n}]
Idle(c) == [c EXCEPT !.live = FALSE, !.past = {}, !.tips = {}, !.mem = NewFile]
(* a scan ends when it reached a tip the node had meanwhile                  *)
Reached(c) == \E b \in c.tips : b = 0 \/ b \in Elems(c.mem.chain)
Due(u, w) == {b \in Elems(PathTo(u, Top(w.chain))) : Height(u, b) >= u.bday}
NothingSkipped(u, w) == w.odd \/ Due(u, w) \subseteq w.cover
Finish(c) == Idle([c EXCEPT !.disk = c.mem])
Fail(c) == {Idle([c EXCEPT !.disk = p]) : p \in c.past}
(* a node that is not there yet has nothing to read                          *)
TooEarly(u, c) == \E b \in c.tips : Height(u, b) < u.bday
(* the block a node whose tip is n has after the blocks of chain c           *)
NextBlock(u, c, n) ==
  LET p == PathTo(u, n)
      shared == {Height(u, x) : x \in Elems(c) \intersect Elems(p)}
      from == IF shared = {} THEN 0 ELSE Max(shared)
      at == IF from + 1 < u.bday THEN u.bday ELSE from + 1
      here == {b \in Elems(p) : Height(u, b) = at}
  IN  IF here = {} THEN 0 ELSE CHOOSE b \in here : TRUE
Filters(u, c, from) == [c EXCEPT !.disk = FilterScan(u, c.disk, c.node, from)]

(* ------------------------------------------------------------------- money *)
Value(u, x) == u.txs[x[1]].vals[x[2] + 1]
Worth(u, S) == MapThenSumSet(LAMBDA x : Value(u, x), S)
FileSettled(u, w) == LET conf == Confirmed(u, w) IN {x \in FileCoins(u, w) : x[1] \in conf}
Balance(u, w) ==
  LET coins == TLCEval(FileCoins(u, w))
      settled == TLCEval(FileSettled(u, w))
      change == {x \in coins \ settled : x[3] = "0"}
  IN  [total |-> Worth(u, settled), spendable |-> Worth(u, settled), immature |-> 0,
       pending |-> Worth(u, coins \ settled), trusted |-> Worth(u, change),
       untrusted |-> Worth(u, coins \ (settled \union change))]

(* A payment: e.ins are the outputs spent, e.outs [value, who] with who the  *)
(* number of the recipient, -1 for change (found by the wallet under its     *)
(* change code), -2 for the data that was asked for and 0 for anything else; *)
(* e.pays the amounts asked for, e.signed whether each input carries a valid *)
(* signature, e.size the virtual size of the result, e.lock the height it    *)
(* waits for, e.rate the rate asked for.                                     *)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* the fee of spending everything, without change
Largest(u, w, e) == e.rate * (13 + 59 * Cardinality(FileCoins(u, w)) + 44 * Len(e.pays) + (IF e.data THEN 25 ELSE 0))
Slack(e) == e.rate * (60 + 2 * Len(e.ins)) + 400           \* what is not worth a change output
PaymentOk(u, w, e) ==
  LET coins == FileCoins(u, w)
      ops == {<<x[1], x[2]>> : x \in coins}
      in == MapThenSumSet(LAMBDA o : u.txs[o[1]].vals[o[2] + 1], Elems(e.ins))
      out == FoldLeft(LAMBDA a, o : a + o.value, 0, e.outs)
      who(x) == {i \in 1..Len(e.outs) : e.outs[i].who = x}
  IN  IF ~e.ok THEN Worth(u, coins) < Sum(e.pays) + Largest(u, w, e)
      ELSE /\ e.ins # <<>>
           /\ Cardinality(Elems(e.ins)) = Len(e.ins)
           /\ Elems(e.ins) \subseteq ops
           /\ \A r \in 1..Len(e.pays) : Cardinality(who(r)) = 1 /\ \A i \in who(r) : e.outs[i].value = e.pays[r]
           /\ Cardinality(who(-1)) <= 1 /\ who(0) = {}
           /\ Cardinality(who(-2)) = (IF e.data THEN 1 ELSE 0)
           /\ in >= out /\ in - out >= e.rate * (e.size - 1) /\ in - out <= e.rate * e.size + Slack(e)
           /\ Len(e.signed) = Len(e.ins) /\ \A i \in 1..Len(e.signed) : e.signed[i]
           /\ e.lock <= Height(u, Top(w.chain))

(* A wallet which kept blocks that were replaced may have two of its          *)
(* transactions in "the" chain that spend the same output: nothing is said   *)
(* about what such a wallet shows.                                           *)
Torn(u, w) ==
  /\ w.odd
  /\ LET conf == Confirmed(u, w) IN \E x, y \in conf : x # y /\ Spends(u, x) \intersect Spends(u, y) # {}

(* -------------------------------------------------------------- properties *)
(* what one scan of the best chain, from the birthday on, finds              *)
Fresh(u, top, labels) ==
  LET empty == [NewFile EXCEPT !.ix.labels = labels]
      bs == SelectSeq(PathTo(u, top), LAMBDA b : Height(u, b) >= u.bday)
  IN  FoldLeft(LAMBDA w, b : ReadBlock(u, w, b), empty, bs)
SpentByPending(u, w) == UNION {Spends(u, t) : t \in Canonical(u, w) \ Confirmed(u, w)}
SameAsFresh(u, w) ==
  LET f == Fresh(u, Top(w.chain), w.ix.labels)
  IN  FileSettled(u, w) = {x \in FileCoins(u, f) : <<x[1], x[2]>> \notin SpentByPending(u, w)}
NoMoreThanFresh(u, w) == FileSettled(u, w) \subseteq FileCoins(u, Fresh(u, Top(w.chain), w.ix.labels))
OneBranch(u, w) == Elems(w.chain) \subseteq Elems(PathTo(u, Top(w.chain)))
=============================================================================
