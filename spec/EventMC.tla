------------------------------ MODULE EventMC ------------------------------
(* Exhaustive check of Event: every client with up to MaxOps calls.        *)
EXTENDS Event, TLC
CONSTANT MaxOps
VARIABLE n
Init == \E b \in BOOLEAN : Init0(b) /\ n = 0
Inv == /\ n < MaxOps /\ n' = n + 1
       /\ \E t \in Threads : op[t] = "idle" /\ (\A w \in Waiters : ~(wst[w] = "check" /\ wth[w] = t))
            /\ (SetInv(t) \/ ResetInv(t) \/ QInv(t) \/ \E w \in Waiters : WaitInv(w, t))
Other == /\ UNCHANGED n
         /\ (Lin \/ LinW \/ \E t \in Threads : SetRet(t) \/ ResetRet(t) \/ QRet(t, qv[t]) \/ \E w \in Waiters : Resume(w, t))
Next == Inv \/ Other
Spec == Init /\ [][Next]_<<vars, n>> /\ WF_<<vars, n>>(Other)
Sym == Permutations(Waiters)
Settles == <>[](\A t \in Threads : op[t] = "idle")
\* once set and left alone, nobody keeps waiting
AllReleased == \A w \in Waiters : (wst[w] = "rel") ~> (wst[w] = "run")
\* a waiter is only ever resumed after having been released or having passed
ResumeOnce == [][\A w \in Waiters : wst[w] = "wait" /\ wst'[w] # "wait" => wst'[w] = "rel" /\ isSet']_<<vars, n>>
============================================================================
