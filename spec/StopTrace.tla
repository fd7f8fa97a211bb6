----------------------------- MODULE StopTrace -----------------------------
EXTENDS Stop, Trie
TInit == NodeInit /\ Init0(0)
Ev(e) ==
  \/ e.e = "Cfg" /\ srcs' = e.srcs /\ UNCHANGED <<req, winner, pend, inreq, cb, by, run, runner, late, dropping, seen>>
  \/ e.e = "ReqInv" /\ ReqInv(e.t)
  \/ e.e = "ReqRet" /\ ReqRet(e.t, e.w)
  \/ e.e = "RegInv" /\ RegInv(e.k, e.t)
  \/ e.e = "RegRet" /\ RegRet(e.k)
  \/ e.e = "CbIn" /\ CbIn(e.k, e.t)
  \/ e.e = "CbOut" /\ CbOut(e.k, e.t)
  \/ e.e = "DerInv" /\ DerInv(e.k)
  \/ e.e = "DerRet" /\ DerRet(e.k, e.t)
  \/ e.e \in {"QInv", "PInv"} /\ QInv(e.t)
  \/ e.e = "QRet" /\ QRet(e.t, e.v)
  \/ e.e = "PRet" /\ PRet(e.t, e.v)
  \/ e.e = "SrcDropInv" /\ SrcDropInv
  \/ e.e = "SrcDropRet" /\ SrcDropRet
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ UNCHANGED vars
TNext == \/ \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
         \/ \E t \in pend : ReqLin(t) /\ UNCHANGED node
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
