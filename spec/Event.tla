------------------------------- MODULE Event ------------------------------
(* Abstract specification of the asynchronous manual-reset event, at the   *)
(* level of its interface: a call is an Inv action, one atomic Lin action, *)
(* and a Ret action.  Coroutines waiting for the event are Waiters.        *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Waiters
VARIABLES isSet,  \* the state of the event
          op,     \* op[t] : call in progress on thread t: idle,set,reset,query + "L" once linearized
          qv,     \* qv[t] : result of a linearized query
          wst,    \* wst[w]: none, check, pass, wait, rel, run
          wth     \* wth[w]: thread on which w is checking, or that has to resume it
vars == <<isSet, op, qv, wst, wth>>

Init0(b) == /\ isSet = b
            /\ op = [t \in Threads |-> "idle"] /\ qv = [t \in Threads |-> FALSE]
            /\ wst = [w \in Waiters |-> "none"] /\ wth = [w \in Waiters |-> 0]

CallInv(t, k) == op[t] = "idle" /\ op' = [op EXCEPT ![t] = k] /\ UNCHANGED <<isSet, qv, wst, wth>>
SetInv(t) == CallInv(t, "set")
ResetInv(t) == CallInv(t, "reset")
QInv(t) == CallInv(t, "query")

\* set takes effect: everybody waiting at this point has to be resumed by this call
SetLin(t) == /\ op[t] = "set"
             /\ op' = [op EXCEPT ![t] = "setL"]
             /\ isSet' = TRUE
             /\ LET R == {w \in Waiters : wst[w] = "wait"} IN
                /\ wst' = [w \in Waiters |-> IF w \in R THEN "rel" ELSE wst[w]]
                /\ wth' = [w \in Waiters |-> IF w \in R THEN t ELSE wth[w]]
             /\ UNCHANGED qv
SetRet(t) == /\ op[t] = "setL"
             /\ \A w \in Waiters : ~(wst[w] = "rel" /\ wth[w] = t)
             /\ op' = [op EXCEPT ![t] = "idle"] /\ UNCHANGED <<isSet, qv, wst, wth>>
ResetLin(t) == /\ op[t] = "reset" /\ op' = [op EXCEPT ![t] = "resetL"] /\ isSet' = FALSE
               /\ UNCHANGED <<qv, wst, wth>>
ResetRet(t) == /\ op[t] = "resetL" /\ op' = [op EXCEPT ![t] = "idle"] /\ UNCHANGED <<isSet, qv, wst, wth>>
QLin(t) == /\ op[t] = "query" /\ op' = [op EXCEPT ![t] = "queryL"] /\ qv' = [qv EXCEPT ![t] = isSet]
           /\ UNCHANGED <<isSet, wst, wth>>
QRet(t, v) == /\ op[t] = "queryL" /\ qv[t] = v /\ op' = [op EXCEPT ![t] = "idle"]
              /\ UNCHANGED <<isSet, qv, wst, wth>>

WaitInv(w, t) == /\ wst[w] \in {"none", "run"}
                 /\ wst' = [wst EXCEPT ![w] = "check"] /\ wth' = [wth EXCEPT ![w] = t]
                 /\ UNCHANGED <<isSet, op, qv>>
WaitLin(w) == /\ wst[w] = "check"
              /\ wst' = [wst EXCEPT ![w] = IF isSet THEN "pass" ELSE "wait"]
              /\ UNCHANGED <<isSet, op, qv, wth>>
\* the coroutine continues, on the thread that found the event set or that set it
Resume(w, t) == /\ wst[w] \in {"pass", "rel"} /\ wth[w] = t
                /\ wst' = [wst EXCEPT ![w] = "run"] /\ UNCHANGED <<isSet, op, qv, wth>>
\* the thread that started the wait gets control back
WaitRet(w, t) == wst[w] \notin {"none"} /\ ~(wst[w] \in {"check", "pass"} /\ wth[w] = t) /\ UNCHANGED vars

Lin == \E t \in Threads : SetLin(t) \/ ResetLin(t) \/ QLin(t)
LinW == \E w \in Waiters : WaitLin(w)

Quiesce(v) == /\ \A t \in Threads : op[t] = "idle"
              /\ \A w \in Waiters : wst[w] \in {"none", "wait", "run"}
              /\ v = isSet /\ UNCHANGED vars

\* ---- properties
NoWaiterWhenSet == isSet => \A w \in Waiters : wst[w] # "wait"
ReleasedBySomeone == \A w \in Waiters : wst[w] = "rel" => op[wth[w]] = "setL"
=============================================================================
