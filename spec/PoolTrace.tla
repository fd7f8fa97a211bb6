----------------------------- MODULE PoolTrace ------------------------------
EXTENDS Pool, Trie
VARIABLE own   \* threads that called run() themselves
TInit == NodeInit /\ Init0 /\ own = {}
Keep == UNCHANGED own
Ev(e) ==
  \/ e.e = "PostInv" /\ PostInv(e.k, e.how, e.d, e.t) /\ Keep
  \/ e.e = "PostRet" /\ PostRet(e.k) /\ Keep
  \/ e.e = "Run" /\ Run(e.k, e.t) /\ Keep
  \/ e.e = "RunOut" /\ RunOut(e.k, e.t) /\ Keep
  \/ e.e = "CancelInv" /\ CancelInv(e.k) /\ Keep
  \/ e.e = "CancelRet" /\ CancelRet(e.k) /\ Keep
  \/ e.e = "WorkInv" /\ WorkInv(e.k) /\ Keep
  \/ e.e = "WorkMade" /\ WorkMade(e.k) /\ Keep
  \/ e.e = "WorkRet" /\ WorkRet(e.k) /\ Keep
  \/ e.e = "DropInv" /\ DropInv(e.k) /\ Keep
  \/ e.e = "DropRet" /\ DropRet(e.k) /\ Keep
  \/ e.e = "RunnerIn" /\ RunnerIn(e.t) /\ own' = own \cup {e.t}
  \/ e.e = "Created" /\ Created(e.t, e.by) /\ Keep
  \/ e.e = "CreateInv" /\ CreateInv(e.t, e.k) /\ Keep
  \/ e.e = "CreateRet" /\ CreateRet(e.t) /\ Keep
  \/ e.e = "RunnerOut" /\ RunnerOut(e.t) /\ Keep
  \/ e.e = "JoinInv" /\ JoinInv(e.t) /\ Keep
  \/ e.e = "JoinRet" /\ JoinRet(own) /\ Keep
  \/ e.e = "Tick" /\ Tick(e.now - 1000, e.idle, own) /\ Keep
  \/ e.e = "Quiesce" /\ Quiesce /\ Keep
  \/ e.e = "End" /\ UNCHANGED vars /\ Keep
Silent == \/ \E i \in Items : Push(i) \/ TakeD(i)
          \/ TakeQ
          \/ \E w \in Tokens : WorkInc(w) \/ WorkDec(w)
          \/ \E t \in Threads : Leave(t) \/ CreateSkip(t)
TNext == \/ \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
         \/ Silent /\ UNCHANGED <<node, own>>
TSpec == TInit /\ [][TNext]_<<vars, node, own>>
============================================================================
