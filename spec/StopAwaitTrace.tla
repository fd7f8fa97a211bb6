--------------------------- MODULE StopAwaitTrace --------------------------
EXTENDS StopAwait, Trie
TInit == NodeInit /\ Init0(0)
Ev(e) ==
  \/ e.e = "Cfg" /\ srcs' = e.srcs /\ UNCHANGED <<req, pend, winner, dropping, ws, wt, imp>>
  \/ e.e = "ReqInv" /\ ReqInv(e.t)
  \/ e.e = "ReqRet" /\ ReqRet(e.t)
  \/ e.e = "SrcDropInv" /\ SrcDropInv
  \/ e.e = "SrcDropRet" /\ SrcDropRet
  \/ e.e = "WaitInv" /\ WaitInv(e.k, e.t)
  \/ e.e = "WaitRet" /\ WaitRet(e.k)
  \/ e.e = "Resume" /\ Resume(e.k)
  \/ e.e = "NoneInv" /\ UNCHANGED vars
  \/ e.e = "NoneResume" /\ UNCHANGED vars
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ UNCHANGED vars
TNext == \/ \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
         \/ \E t \in pend : ReqLin(t) /\ UNCHANGED node
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
