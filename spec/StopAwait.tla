------------------------------ MODULE StopAwait ----------------------------
(* Awaiting a stop token.                                                   *)
EXTENDS Integers, FiniteSets
CONSTANTS Waiters, Threads
VARIABLES req, pend, winner, srcs, dropping, ws, wt, imp
vars == <<req, pend, winner, srcs, dropping, ws, wt, imp>>
\* ws[w]: idle, wait; wt[w]: thread that started the wait (or -1 once its await call returned); imp[w]: stop became impossible since
Init0(n) == /\ req = FALSE /\ pend = {} /\ winner = -1 /\ srcs = n /\ dropping = 0
            /\ ws = [w \in Waiters |-> "idle"] /\ wt = [w \in Waiters |-> -1]
            /\ imp = [w \in Waiters |-> FALSE]
ReqInv(t) == pend' = pend \cup {t} /\ UNCHANGED <<req, winner, srcs, dropping, ws, wt, imp>>
ReqLin(t) == t \in pend /\ ~req /\ req' = TRUE /\ winner' = t /\ pend' = pend \ {t} /\ UNCHANGED <<srcs, dropping, ws, wt, imp>>
\* when the request that took effect returns, whoever was waiting by then has been resumed (or is just being registered by its thread)
ReqRet(t) == /\ \/ t \notin pend /\ winner = t /\ \A w \in Waiters : ws[w] = "wait" => wt[w] >= 0 /\ wt[w] # t
                \/ t \in pend /\ req
                \/ t \notin pend /\ winner # t
             /\ pend' = pend \ {t} /\ UNCHANGED <<req, winner, srcs, dropping, ws, wt, imp>>
SrcDropInv == srcs' = srcs - 1 /\ dropping' = dropping + 1
              /\ imp' = [w \in Waiters |-> imp[w] \/ (ws[w] = "wait" /\ wt[w] >= 0 /\ srcs = 1)] /\ UNCHANGED <<req, pend, winner, ws, wt>>
SrcDropRet == dropping' = dropping - 1 /\ UNCHANGED <<req, pend, winner, srcs, ws, wt, imp>>
WaitInv(w, t) == /\ ws[w] = "idle" /\ ws' = [ws EXCEPT ![w] = "wait"] /\ wt' = [wt EXCEPT ![w] = t] /\ imp' = [imp EXCEPT ![w] = srcs = 0]
                 /\ UNCHANGED <<req, pend, winner, srcs, dropping>>
\* only after a request (or when there can be none any more), once
Resume(w) == /\ ws[w] = "wait" /\ (req \/ imp[w])
             /\ ws' = [ws EXCEPT ![w] = "idle"] /\ UNCHANGED <<req, pend, winner, srcs, dropping, wt, imp>>
\* the call that started the coroutine returned: if stop had been requested the coroutine has gone on
WaitRet(w) == /\ wt' = [wt EXCEPT ![w] = -1] /\ UNCHANGED <<req, pend, winner, srcs, dropping, ws, imp>>
Quiesce == (\A w \in Waiters : ws[w] = "wait" => ~req /\ ~(srcs = 0 /\ dropping > 0)) /\ UNCHANGED vars
=============================================================================
