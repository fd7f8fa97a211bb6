---------------------------- MODULE ScopeTrace -----------------------------
EXTENDS Scope, Trie
CONSTANT AllowSwallow
TInit == NodeInit /\ Init0([k \in Tasks |-> "v"])
Ev(e) ==
  \/ e.e = "Cfg" /\ kind' = [k \in Tasks |-> IF k < Len(e.kinds) THEN e.kinds[k + 1] ELSE "v"]
                 /\ UNCHANGED <<ts, hs, js, deliv, sst, thrown, must>>
  \/ e.e = "AddInv" /\ AddInv(e.k)
  \/ e.e = "AddRet" /\ AddRet(e.k)
  \/ e.e = "BodyIn" /\ BodyIn(e.k)
  \/ e.e = "BodyOut" /\ BodyOut(e.k)
  \/ e.e = "DropInv" /\ DropInv(e.k)
  \/ e.e = "DropRet" /\ DropRet(e.k)
  \/ e.e = "AwaitInv" /\ AwaitInv(e.k)
  \/ e.e = "AwaitRet" /\ AwaitDone(e.k, FALSE, e.v, e.d)
  \/ e.e = "AwaitExc" /\ AwaitDone(e.k, TRUE, e.v, e.d)
  \/ e.e = "Ready" /\ Ready(e.k, e.v)
  \/ e.e = "ReadyEnd" /\ ReadyAtRest(e.k, e.v)
  \/ e.e = "JoinInv" /\ JoinInv(e.j)
  \/ e.e = "JoinRet" /\ JoinRet(e.j, e.ex)
  \/ e.e = "ScopeInv" /\ ScopeInv
  \/ e.e = "ScopeBodyIn" /\ ScopeBodyIn
  \/ e.e = "BodyThrow" /\ BodyThrow
  \/ e.e = "ScopeBodyOut" /\ ScopeBodyOut
  \/ e.e = "ScopeRet" /\ (ScopeRet(e.ex, e.d) \/ (AllowSwallow /\ ScopeRetSwallow(e.ex, e.d)))
  \/ e.e = "OuterOut" /\ sst = "ret" /\ UNCHANGED vars
  \/ e.e = "OuterRet" /\ sst = "ret" /\ UNCHANGED vars
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ UNCHANGED vars
TNext == \/ \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
         \/ \E j \in Joins : JoinLin(j) /\ UNCHANGED node
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
