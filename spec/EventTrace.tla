---------------------------- MODULE EventTrace -----------------------------
(* Do the recorded executions of the real event refine Event?              *)
EXTENDS Event, Trie
TInit == NodeInit /\ Init0(FALSE)
Ev(e) ==
  \/ e.e = "Cfg" /\ isSet' = e.init /\ UNCHANGED <<op, qv, wst, wth>>
  \/ e.e = "SetInv" /\ SetInv(e.t)
  \/ e.e = "SetRet" /\ SetRet(e.t)
  \/ e.e = "ResetInv" /\ ResetInv(e.t)
  \/ e.e = "ResetRet" /\ ResetRet(e.t)
  \/ e.e = "QInv" /\ QInv(e.t)
  \/ e.e = "QRet" /\ QRet(e.t, e.v)
  \/ e.e = "WaitInv" /\ WaitInv(e.w, e.t)
  \/ e.e = "WaitRet" /\ WaitRet(e.w, e.t)
  \/ e.e = "Resume" /\ Resume(e.w, e.t)
  \/ e.e = "Quiesce" /\ Quiesce(e.v)
  \/ e.e = "End" /\ (\A w \in Waiters : wst[w] \in {"none", "run"}) /\ UNCHANGED vars
TNext == \/ \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
         \/ (Lin \/ LinW) /\ UNCHANGED node
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
