----------------------------- MODULE TimeoutMC ------------------------------
(* Two timeouts or hand made triggers with every kind of request, each with *)
(* or without an operation.                                                 *)
EXTENDS Timeout, TLC
CONSTANTS MaxNow
Init == Init0
Hs(k) == mk[k] = "none"
Client(k) == \/ \E o \in BOOLEAN : now + 2 <= MaxNow /\ op[k] = "none" /\ MakeInv(k, 1 + (k % 2), o)
             \/ mk[k] = "armed" /\ req[k] = "none" /\ ReqInv(k)
             \/ oreq[k] = "none" /\ OuterInv(k)
             \/ op[k] = "none" /\ AwaitInv(k)
             \/ mk[k] # "making" /\ aw[k] = "none" /\ \E e \in BOOLEAN : TakeInv(k, e, Hs(k))
             \/ ~hand[k] /\ ow[k] = "none" /\ OpWait(k)
Lib(k) == \/ MakeRet(k) \/ (req[k] = "inv" /\ ReqRet(k)) \/ (oreq[k] = "inv" /\ OuterRet(k))
          \/ (mk[k] # "none" \/ hand[k]) /\ Stopped(k)
          \/ AwaitRet(k) \/ OpIn(k) \/ OpTok(k) \/ TrigStop(k) \/ TrigIn(k) \/ TakeRet(k, exc[k], k, k + 1)
Next == \/ \E k \in Ids : Client(k) \/ Lib(k) \/ OpOut(k) \/ TrigOut(k)
        \/ now < MaxNow /\ (\E i \in BOOLEAN : Tick(now + 1, i)) /\ \A k \in Ids : mk[k] # "making"
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(now < MaxNow /\ Tick(now + 1, TRUE))
        /\ \A k \in Ids : /\ WF_vars(OpOut(k)) /\ WF_vars(TrigOut(k))
                          /\ WF_vars(MakeRet(k)) /\ WF_vars(req[k] = "inv" /\ ReqRet(k)) /\ WF_vars(oreq[k] = "inv" /\ OuterRet(k))
                          /\ WF_vars((mk[k] # "none" \/ hand[k]) /\ Stopped(k)) /\ WF_vars(AwaitRet(k)) /\ WF_vars(OpIn(k)) /\ WF_vars(OpTok(k))
                          /\ WF_vars(TrigStop(k)) /\ WF_vars(TrigIn(k)) /\ WF_vars(TakeRet(k, exc[k], k, k + 1))
TimeoutEnds == \A k \in Ids : mk[k] = "armed" ~> stp[k]
AwaitEnds == \A k \in Ids : aw[k] = "wait" ~> aw[k] = "done"
TakeEnds == \A k \in Ids : op[k] = "started" ~> ret[k]
NotEarly == [][\A k \in Ids : stp'[k] /\ ~stp[k] /\ mk[k] = "armed" /\ req[k] = "none" /\ oreq[k] = "none" /\ op[k] # "out" => now >= lo[k]]_vars
============================================================================
