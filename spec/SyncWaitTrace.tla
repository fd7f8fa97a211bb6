--------------------------- MODULE SyncWaitTrace ----------------------------
EXTENDS SyncWait, Trie
TInit == NodeInit /\ Init0([k \in Ops |-> NoDef])
Ev(e) ==
  \/ e.e = "Cfg" /\ def' = [k \in Ops |-> IF k < Len(e.defs) THEN e.defs[k + 1] ELSE NoDef] /\ UNCHANGED <<open, run, blk>>
  \/ e.e = "Inv" /\ Inv(e.k)
  \/ e.e = "In" /\ In(e.k)
  \/ e.e = "Out" /\ Out(e.k)
  \/ e.e = "Open" /\ Open(e.k)
  \/ e.e = "Made" /\ Made(e.k)
  \/ e.e = "GetInv" /\ GetInv(e.k)
  \/ e.e = "Ret" /\ Ret(e.k, e.x, e.v, e.d)
  \/ e.e = "Drop" /\ Drop(e.k)
  \/ e.e = "End" /\ End /\ UNCHANGED vars
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
=============================================================================
