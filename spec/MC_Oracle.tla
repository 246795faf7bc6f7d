----------------------------- MODULE MC_Oracle ------------------------------
(* Every schedule: events, batches, requests in flight and answers in any    *)
(* order interleave freely; the server may fail for any block.               *)
EXTENDS SPOracle
CONSTANTS NBlocks, NEvents, Limit, Inflight

(* heights 1, 1, 2, 2, 3 ...: neighbours are rivals                          *)
Height(b) == (b + 1) \div 2
VARIABLES kinds, events, queue, chan, busy, got, done, watch, out, reqs
vars == <<kinds, events, queue, chan, busy, got, done, watch, out, reqs>>
(* kinds of blocks: nothing in it, payments, a payment with two outputs, a   *)
(* spend of a coin known from the start, and of ones received meanwhile, in  *)
(* blocks without tweaks                                                     *)
Shape == [empty |-> [tweaks |-> <<1>>, has |-> <<<<"x", 1>>>>],
          pay   |-> [tweaks |-> <<1, 2>>, has |-> <<<<"d", 2, "", 0>>, <<"x", 1>>>>],
          paylab |-> [tweaks |-> <<1, 2>>, has |-> <<<<"d", 1, "7", 0>>, <<"d", 1, "", 1>>>>],
          foreign |-> [tweaks |-> <<2>>, has |-> <<<<"d", 2, "9", 0>>, <<"d", 2, "", 1>>>>],
          spend |-> [tweaks |-> <<>>, has |-> <<<<"u", 1>>>>],
          spendpay |-> [tweaks |-> <<>>, has |-> <<<<"d", 2, "", 0>>>>],
          spendlab |-> [tweaks |-> <<1>>, has |-> <<<<"d", 1, "", 1>>>>]]
U(k, es, ans) ==
  [blocks |-> [b \in 1..NBlocks |-> [height |-> Height(b), tweaks |-> Shape[k[b]].tweaks, has |-> Shape[k[b]].has,
                                      answer |-> ans[b]]],
   labels |-> <<"7">>, unspent |-> <<1>>, birthday |-> 1, limit |-> Limit, events |-> es]
Good == [b \in 1..NBlocks |-> "ok"]
Cur == U(kinds, events, Good)
Init == /\ kinds \in [1..NBlocks -> DOMAIN Shape]
        /\ events = <<>> /\ queue = {} /\ chan = <<>> /\ watch = Unspent(Cur)
        /\ busy = <<>> /\ got = {} /\ done = <<>> /\ out = <<>> /\ reqs = {}
(* the node *)
Event ==
  /\ Len(events) < NEvents
  /\ \E e \in [ev : {"filter", "tip"}, b : 1..NBlocks] :
       LET r == FilterSide(Cur, queue, e)
       IN  /\ events' = Append(events, e) /\ queue' = r.queue /\ chan' = chan \o r.sent
  /\ UNCHANGED <<kinds, busy, got, done, watch, out, reqs>>
(* the tweak side takes a batch when it is done with the previous one        *)
TakeBatch ==
  /\ busy = <<>> /\ chan # <<>> /\ Head(chan).m = "batch"
  /\ busy' = <<InOrder(Cur, Head(chan).bs)>> /\ reqs' = {} /\ got' = {} /\ chan' = Tail(chan)
  /\ UNCHANGED <<kinds, events, queue, done, watch, out>>
TakeTip ==
  /\ busy = <<>> /\ chan # <<>> /\ Head(chan).m = "tip"
  /\ out' = Append(out, [m |-> "synced", b |-> Head(chan).b]) /\ chan' = Tail(chan)
  /\ UNCHANGED <<kinds, events, queue, busy, got, done, watch, reqs>>
(* several requests are under way at once, answers come in any order         *)
Under == {busy[1][i] : i \in 1..(IF Inflight < Len(busy[1]) THEN Inflight ELSE Len(busy[1]))}
Request ==
  /\ busy # <<>>
  /\ \E b \in Under \ reqs : reqs' = reqs \union {b}
  /\ UNCHANGED <<kinds, events, queue, chan, busy, got, done, watch, out>>
Answer ==
  /\ busy # <<>>
  /\ \E b \in reqs, a \in {"ok", "fails"} :
       /\ \A x \in got : x.b # b
       /\ got' = got \union {[b |-> b, a |-> a]}
  /\ UNCHANGED <<kinds, events, queue, chan, busy, done, watch, out, reqs>>
(* blocks are gone through in order of height                                *)
Process ==
  /\ busy # <<>> /\ busy[1] # <<>>
  /\ \E x \in got :
       /\ x.b = Head(busy[1])
       /\ busy' = <<Tail(busy[1])>> /\ done' = Append(done, x)
       /\ got' = got \ {x} /\ reqs' = reqs \ {x.b}
       /\ out' = IF Tells(Cur, x.b, watch, x.a) THEN Append(out, [m |-> "match", b |-> x.b]) ELSE out
       /\ watch' = watch \union Found(Cur, x.b, x.a)
  /\ UNCHANGED <<kinds, events, queue, chan>>
Done == busy = <<<<>>>> /\ busy' = <<>> /\ UNCHANGED <<kinds, events, queue, chan, got, done, watch, out, reqs>>
Next == Event \/ TakeBatch \/ TakeTip \/ Request \/ Answer \/ Process \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(TakeBatch) /\ WF_vars(TakeTip) /\ WF_vars(Request) /\ WF_vars(Answer) /\ WF_vars(Process) /\ WF_vars(Done)

(* ------------------------------------------------------------- properties  *)
Idle == chan = <<>> /\ busy = <<>>
Batches == SelectSeq(AllSent(Cur), LAMBDA x : x.m = "batch")
Tips == SelectSeq(AllSent(Cur), LAMBDA x : x.m = "tip")
Synced == SelectSeq(out, LAMBDA x : x.m = "synced")
Flat == FoldLeft(LAMBDA n, x : n + Cardinality(x.bs), 0, Batches)
(* every delivered filter is answered for exactly once, tips are in order    *)
Complete == Idle => Len(done) = Flat /\ [i \in 1..Len(Synced) |-> Synced[i].b] = [i \in 1..Len(Tips) |-> Tips[i].b]
(* what should have been told, from the answers alone: a block matches if it *)
(* pays the wallet, spends a coin it had, or one received before             *)
Pays(x) == x.a = "ok" /\ kinds[x.b] \in {"pay", "paylab"}
Matches(i) ==
  LET x == done[i] IN
  \/ Pays(x) \/ kinds[x.b] = "spend"
  \/ kinds[x.b] = "spendpay" /\ \E j \in 1..(i - 1) : done[j].a = "ok" /\ kinds[done[j].b] = "pay"
  \/ kinds[x.b] = "spendlab" /\ \E j \in 1..(i - 1) : done[j].a = "ok" /\ kinds[done[j].b] = "paylab"
  \* the same payment again, or one with an output that was seen
  \/ kinds[x.b] \in {"pay", "paylab"} /\ \E j \in 1..(i - 1) : done[j].a = "ok" /\ kinds[done[j].b] = kinds[x.b]
Told == SelectSeq(out, LAMBDA x : x.m = "match")
ExactlyThese ==
  LET should == SelectSeq([i \in 1..Len(done) |-> i], LAMBDA i : Matches(i))
  IN  [i \in 1..Len(Told) |-> Told[i].b] = [i \in 1..Len(should) |-> done[should[i]].b]
(* the n-th sync point comes after every match of the batches before it      *)
FlatBefore(n) ==
  \* blocks in the batches before the n-th tip
  LET all == AllSent(Cur)
      at == CHOOSE i \in 1..Len(all) : all[i].m = "tip" /\ Cardinality({j \in 1..i : all[j].m = "tip"}) = n
  IN  FoldLeft(LAMBDA k, x : k + Cardinality(x.bs), 0, SubSeq(all, 1, at))
SyncedLast ==
  \A n \in 1..Len(Synced) :
    /\ Len(done) >= FlatBefore(n)
    /\ LET at == CHOOSE i \in 1..Len(out) : out[i].m = "synced" /\ Cardinality({j \in 1..i : out[j].m = "synced"}) = n
           before == SelectSeq(SubSeq(out, 1, at), LAMBDA x : x.m = "match")
       IN  Len(before) = Cardinality({i \in 1..FlatBefore(n) : Matches(i)})
(* the evaluator's fold over batches says the same                           *)
FoldAgrees ==
  Idle => LET ans == [b \in 1..NBlocks |-> "ok"]
              allOk == \A i \in 1..Len(done) : done[i].a = "ok"
              st == FoldLeft(LAMBDA acc, x : LET s == TweakSide(U(kinds, events, ans), acc.st, x.bs)
                                             IN [st |-> s, all |-> acc.all \o s.match],
                             [st |-> NewWatch(Cur), all |-> <<>>], Batches)
          IN  allOk => st.all = [i \in 1..Len(Told) |-> Told[i].b] /\ st.st.lost = <<>>
(* a held filter leaves only with a batch or for a rival                     *)
HeldOnce == \A a, b \in queue : a # b => Height(a) # Height(b)
Finishes == <>[]Idle
=============================================================================
