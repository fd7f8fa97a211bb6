---------------------------- MODULE BarrierTrace ----------------------------
(* Do the recorded executions of the real barrier refine Barrier?           *)
EXTENDS Barrier, Trie
VARIABLE total
TInit == NodeInit /\ Init0(0) /\ total = 0
Ev(e) ==
  \/ e.e = "Cfg" /\ cnt' = e.n /\ total' = e.total /\ UNCHANGED <<cst, cth, arg, wst, wth, wby>>
  \/ /\ UNCHANGED total
     /\ \/ e.e = "AddInv" /\ AddInv(e.c, e.t, e.n)
        \/ e.e = "DecInv" /\ DecInv(e.c, e.t)
        \/ e.e = "CountInv" /\ CountInv(e.c, e.t)
        \/ e.e = "Ret" /\ Ret(e.c, e.v)
        \/ e.e = "WaitInv" /\ WaitInv(e.w, e.t)
        \/ e.e = "WaitRet" /\ WaitRet(e.w, e.t)
        \/ e.e = "Resume" /\ Resume(e.w, e.t)
        \* everything done before the decrements is visible at zero
        \/ e.e = "Sum" /\ e.v = total /\ UNCHANGED vars
        \/ e.e = "Quiesce" /\ Quiesce(e.v)
        \/ e.e = "End" /\ Idle /\ UNCHANGED vars
TNext == \/ \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
         \/ Lin /\ UNCHANGED <<node, total>>
TSpec == TInit /\ [][TNext]_<<vars, total, node>>
============================================================================
