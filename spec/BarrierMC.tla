----------------------------- MODULE BarrierMC -----------------------------
(* Exhaustive check of Barrier: every client of up to |Calls| calls.        *)
EXTENDS Barrier, TLC
CONSTANTS Threads, MaxInit
Init == \E n \in 0..MaxInit : Init0(n)
Free(t) == /\ \A c \in Calls : cst[c] \in {"none", "done"} \/ cth[c] # t \/ (cst[c] = "lin" /\ \E w \in Waiters : wst[w] = "run" /\ wby[w] = c)
           /\ \A w \in Waiters : ~(wst[w] = "check" /\ wth[w] = t)
\* clients only take down what is there and nobody else is about to take
Pending == Cardinality({c \in Calls : cst[c] = "dec"})
Inv == \E t \in Threads : Free(t) /\
         (\/ \E c \in Calls : (\A d \in Calls : d < c => cst[d] # "none")
              /\ ((\E n \in 1..2 : AddInv(c, t, n)) \/ CountInv(c, t) \/ (cnt > Pending /\ DecInv(c, t)))
          \/ \E w \in Waiters : (\A x \in Waiters : x < w => wst[x] # "none") /\ WaitInv(w, t))
Other == Lin \/ (\E c \in Calls : Ret(c, arg[c])) \/ \E w \in Waiters, t \in Threads : Resume(w, t)
Next == Inv \/ Other
Spec == Init /\ [][Next]_vars /\ WF_vars(Other)
Released == \A w \in Waiters : (wst[w] = "rel") ~> (wst[w] = "run")
\* a waiting coroutine continues only because the count is zero at that step
OnlyAtZero == [][\A w \in Waiters : wst[w] # wst'[w] /\ wst'[w] \in {"rel", "pass"} => cnt' = 0]_vars
ResumedOnce == [][\A w \in Waiters : wst[w] = "run" => wst'[w] = "run"]_vars
============================================================================
