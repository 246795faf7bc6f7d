----------------------------- MODULE MC_Wallet ------------------------------
(* Every history of blocks, reorganizations, addresses, stores and crashes,  *)
(* up to Depth steps, over the steps a scenario offers.                      *)
EXTENDS SPWallet, Json, IOUtils
CONSTANTS Depth, Sel
Scn == ndJsonDeserialize(IOEnv.SCN)
S == Scn[Sel]
U == [txs |-> S.txs, blocks |-> S.blocks, rank |-> S.rank]
VARIABLES hist, w, path
vars == <<hist, w, path>>
Init == hist = <<>> /\ w = NewWallet /\ path = <<>>
Next == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(S.ops) :
             LET n == WStep(U, w, S.ops[i])
             IN  /\ hist' = Append(hist, i) /\ w' = n /\ path' = Append(path, WView(U, n))
Spec == Init /\ [][Next]_vars
Consistent == CanonConsistent(U, w)
BestChainWins == BestWins(U, w)
NoCoinLost == NothingLost(U, w)
StoredAndStaged == StoreIsPast(U, w)
Apart == Settled(U, w) \intersect Pending(U, w) = {}
ChainIsPath == LET top == w.chain[Len(w.chain)]
               IN  w.chain = <<>> \/ w.chain = SelectSeq(PathTo(U, top), LAMBDA b : b \in Elems(w.chain))
(* C18: a crash right after a store loses nothing, and a crash never yields  *)
(* anything but the last stored state                                        *)
CrashSafe ==
  LET c == WStep(U, w, [op |-> "crash"])
      t == WStep(U, WStep(U, w, [op |-> "take"]), [op |-> "crash"])
  IN  /\ t.ix = w.ix /\ t.chain = w.chain
      /\ (w.stored # <<>> => c.ix = w.stored[1].ix /\ c.chain = w.stored[1].chain)
(* only a crash makes the wallet forget                                      *)
Remembers == [][(Len(hist') > Len(hist) /\ S.ops[hist'[Len(hist')]].op # "crash") =>
                  /\ w.ix.labels \subseteq w'.ix.labels /\ w.ix.gtxs \subseteq w'.ix.gtxs
                  /\ Indexed(U, w.ix) \subseteq Indexed(U, w'.ix)]_vars
Emit == Len(hist) < Depth \/ PrintT("OUT " \o ToJson([sel |-> Sel, ops |-> hist, states |-> path]))
=============================================================================
