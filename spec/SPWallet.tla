------------------------------ MODULE SPWallet ------------------------------
(* The wallet: an indexer (SPIndex), the chain it believes in, what it has   *)
(* staged and what was stored.                                               *)
(*                                                                           *)
(* Universe as in SPCanon.                                                   *)
(*   ix      state of the indexer                                            *)
(*   chain   blocks known to be in the best chain, lowest first, not always  *)
(*           all of them                                                     *)
(*   staged  [ix, chain]: what changed since the last store                  *)
(*   stored  <<>> or <<[ix, chain]>>: the merge of all change sets taken     *)
(*   dirty   something changed since the last store                          *)
(*   fresh   restored, or a block supplied, and nothing taken since: what is *)
(*           known already may be staged again                               *)
EXTENDS SPCanon

SortedChain(u, S) == SetToSortSeq(S, LAMBDA a, b : u.blocks[a].height < u.blocks[b].height)

Heights(u, c) == {u.blocks[b].height : b \in Elems(c)}
At(u, c, h) == IF h \in Heights(u, c) THEN CHOOSE b \in Elems(c) : u.blocks[b].height = h ELSE 0
ChainDiff(u, old, new) ==
  LET hs == {h \in Heights(u, old) \union Heights(u, new) : At(u, old, h) # At(u, new, h)}
  IN  [h \in hs |-> At(u, new, h)]
DiffOver(a, b) == [i \in DOMAIN a \union DOMAIN b |-> IF i \in DOMAIN b THEN b[i] ELSE a[i]]
ApplyDiff(u, c, d) ==
  LET all == DiffOver([h \in Heights(u, c) |-> At(u, c, h)], d)
  IN  SortedChain(u, {all[h] : h \in DOMAIN all} \ {0})

(* Told about some blocks, via and b, of the chain that ends in b and about   *)
(* the last one of it that is known: what was known above that goes. When b  *)
(* is known nothing goes.                                                    *)
LinkTo(u, c, b, via) ==
  LET p == Elems(PathTo(u, b))
      shared == {u.blocks[x].height : x \in Elems(c) \intersect p}
      keep == IF b \in Elems(c) THEN Elems(c)
              ELSE {x \in Elems(c) : shared # {} /\ u.blocks[x].height <= Max(shared)}
  IN  SortedChain(u, keep \union via \union {b})
(* One block put into the known chain, if it is not of another branch        *)
PutIn(u, c, b) ==
  IF \A x \in Elems(c) : x \in Elems(PathTo(u, b)) \/ b \in Elems(PathTo(u, x)) THEN SortedChain(u, Elems(c) \union {b}) ELSE c

WalletIx == [EmptyIndex EXCEPT !.labels = {"0"}]
NoDiff == [i \in {} |-> 0]
NoChanges == [ix |-> EmptyIndex, chain |-> NoDiff]
NewWallet == [ix |-> WalletIx, chain |-> <<>>,
              staged |-> [ix |-> WalletIx, chain |-> NoDiff],
              stored |-> <<>>, fresh |-> FALSE, dirty |-> TRUE]

MergedChanges(a, b) == [ix |-> Merged(a.ix, b.ix), chain |-> DiffOver(a.chain, b.chain)]
Stage(u, w, ix, chain) ==
  LET d == [ix |-> Changes(w.ix, ix), chain |-> ChainDiff(u, w.chain, chain)]
  IN  [w EXCEPT !.ix = ix, !.chain = chain, !.staged = MergedChanges(@, d),
                !.dirty = @ \/ d # NoChanges]

WStep(u, w, o) ==
  CASE o.op = "block" -> [Stage(u, w, ApplyBlock(u, w.ix, o.b, Elems(o.secrets), "rel"), w.chain) EXCEPT !.fresh = TRUE]
    [] o.op = "chain" -> Stage(u, w, w.ix, Follow(u, w.chain, o.b))
    [] o.op = "link" -> Stage(u, w, w.ix, LinkTo(u, w.chain, o.b, Elems(o.via)))
    [] o.op = "tip" -> Stage(u, w, w.ix, PutIn(u, w.chain, o.b))
    [] o.op = "address" -> IF o.m = "0" THEN w ELSE Stage(u, w, AddLabel(u, w.ix, o.m), w.chain)
    [] o.op = "take" ->
         LET base == IF w.stored = <<>> THEN [ix |-> EmptyIndex, chain |-> <<>>] ELSE w.stored[1]
         IN  [w EXCEPT !.stored = <<[ix |-> Merged(base.ix, w.staged.ix),
                                     chain |-> ApplyDiff(u, base.chain, w.staged.chain)]>>,
                       !.staged = NoChanges, !.dirty = FALSE, !.fresh = FALSE]
    \* the process dies: everything not stored is lost
    [] o.op = "crash" ->
         IF w.stored = <<>> THEN NewWallet
         ELSE [w EXCEPT !.ix = w.stored[1].ix, !.chain = w.stored[1].chain,
                        !.staged = NoChanges, !.dirty = FALSE, !.fresh = FALSE]

(* ------------------------------------------------------------------- money *)
Coins(u, w) == CoinsOf(u, w, Indexed(u, w.ix))
Settled(u, w) == LET conf == Confirmed(u, w) IN {x \in Coins(u, w) : x[1] \in conf}
Pending(u, w) == Coins(u, w) \ Settled(u, w)

(* blocks whose height a confirmed transaction may be shown with             *)
ShownIn(u, w, t) ==
  IF OnBest(w, t) # {} THEN OnBest(w, t)
  ELSE UNION {OnBest(w, d) : d \in Down(u, w, {t})}

WView(u, w) ==
  LET conf == TLCEval(Confirmed(u, w))
      canon == TLCEval(Canonical(u, w))
      coins == TLCEval(Coins(u, w))
  IN  [chain |-> w.chain,
       labels |-> SetToSeq(w.ix.labels),
       idx |-> SetToSeq(Indexed(u, w.ix)),
       known |-> SetToSeq(w.ix.known),
       gtxs |-> SetToSeq(w.ix.gtxs),
       canon |-> SetToSeq({[tx |-> t, in |-> SetToSeq(IF t \in conf THEN ShownIn(u, w, t) ELSE {})] : t \in canon}),
       settled |-> SetToSeq({x \in coins : x[1] \in conf}),
       pending |-> SetToSeq({x \in coins : x[1] \notin conf}),
       stored |-> w.stored # <<>>,
       stage |-> IF w.dirty THEN "full" ELSE IF w.fresh THEN "any" ELSE "empty"]

(* -------------------------------------------------------------- properties *)
NothingLost(u, w) == NothingLostOf(u, w, Indexed(u, w.ix))
StoreIsPast(u, w) ==
  \* what was stored, with what is staged, is what is held
  LET base == IF w.stored = <<>> THEN [ix |-> EmptyIndex, chain |-> <<>>] ELSE w.stored[1]
  IN  /\ Merged(base.ix, w.staged.ix) = w.ix
      /\ ApplyDiff(u, base.chain, w.staged.chain) = w.chain
=============================================================================
