----------------------------- MODULE TaskTrace -----------------------------
EXTENDS Task, Trie
TInit == NodeInit /\ Init0([k \in Tasks |-> NoDef])
Ev(e) ==
  \/ e.e = "Cfg" /\ def' = [k \in Tasks |-> IF k < Len(e.defs) THEN e.defs[k + 1] ELSE NoDef] /\ UNCHANGED <<ts, hs, own>>
  \/ e.e = "CreateInv" /\ CreateInv(e.k)
  \/ e.e = "CreateRet" /\ CreateRet(e.k)
  \/ e.e = "BodyIn" /\ BodyIn(e.k)
  \/ e.e = "BodyOut" /\ BodyOut(e.k)
  \/ e.e = "AwaitInv" /\ AwaitInv(e.k)
  \/ e.e = "WhenReady" /\ WhenReady(e.k)
  \/ e.e = "AwaitRet" /\ AwaitDone(e.k, FALSE, e.v, e.d)
  \/ e.e = "AwaitExc" /\ AwaitDone(e.k, TRUE, e.v, e.d)
  \/ e.e = "Ready" /\ Ready(e.k, e.v)
  \/ e.e = "DropInv" /\ DropInv(e.k)
  \/ e.e = "ParamOut" /\ ParamOut(e.k)
  \/ e.e = "DropRet" /\ DropRet(e.k)
  \/ e.e = "Broken" /\ UNCHANGED vars
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ End /\ UNCHANGED vars
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
