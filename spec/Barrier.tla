------------------------------ MODULE Barrier ------------------------------
(* Abstract specification of the barrier: a count that calls raise and      *)
(* lower (an Inv action, one atomic Lin action, a Ret action), and          *)
(* coroutines that wait, one at a time, until it is zero.                   *)
EXTENDS Naturals, FiniteSets
CONSTANTS Calls, Waiters
VARIABLES cnt,    \* the count
          cst,    \* cst[c] : none, add, dec, count, lin (took effect), done
          cth,    \* thread of the call
          arg,    \* amount of an add, then the result of the call
          wst,    \* wst[w]: none, check, pass, wait, rel, run
          wth,    \* thread that is checking, or that has to resume it
          wby     \* the call that released it
vars == <<cnt, cst, cth, arg, wst, wth, wby>>
NoCall == 99
Init0(n) == /\ cnt = n /\ cst = [c \in Calls |-> "none"] /\ cth = [c \in Calls |-> 0] /\ arg = [c \in Calls |-> 0]
            /\ wst = [w \in Waiters |-> "none"] /\ wth = [w \in Waiters |-> 0] /\ wby = [w \in Waiters |-> NoCall]
Call(c, t, k, n) == /\ cst[c] = "none" /\ cst' = [cst EXCEPT ![c] = k] /\ cth' = [cth EXCEPT ![c] = t]
                    /\ arg' = [arg EXCEPT ![c] = n] /\ UNCHANGED <<cnt, wst, wth, wby>>
AddInv(c, t, n) == Call(c, t, "add", n)
DecInv(c, t) == Call(c, t, "dec", 0)
CountInv(c, t) == Call(c, t, "count", 0)
\* the calls take effect and return the new count
AddLin(c) == /\ cst[c] = "add" /\ cnt' = cnt + arg[c] /\ arg' = [arg EXCEPT ![c] = cnt + arg[c]]
             /\ cst' = [cst EXCEPT ![c] = "lin"] /\ UNCHANGED <<cth, wst, wth, wby>>
CountLin(c) == /\ cst[c] = "count" /\ arg' = [arg EXCEPT ![c] = cnt]
               /\ cst' = [cst EXCEPT ![c] = "lin"] /\ UNCHANGED <<cnt, cth, wst, wth, wby>>
\* the call that brings the count to zero releases the waiting coroutine, and resumes it before it returns
DecLin(c) == /\ cst[c] = "dec" /\ cnt > 0 /\ cnt' = cnt - 1 /\ arg' = [arg EXCEPT ![c] = cnt - 1]
             /\ cst' = [cst EXCEPT ![c] = "lin"]
             /\ LET R == {w \in Waiters : wst[w] = "wait" /\ cnt = 1} IN
                /\ wst' = [w \in Waiters |-> IF w \in R THEN "rel" ELSE wst[w]]
                /\ wth' = [w \in Waiters |-> IF w \in R THEN cth[c] ELSE wth[w]]
                /\ wby' = [w \in Waiters |-> IF w \in R THEN c ELSE wby[w]]
             /\ UNCHANGED cth
Ret(c, v) == /\ cst[c] = "lin" /\ arg[c] = v /\ (\A w \in Waiters : ~(wst[w] = "rel" /\ wby[w] = c))
             /\ cst' = [cst EXCEPT ![c] = "done"] /\ UNCHANGED <<cnt, cth, arg, wst, wth, wby>>

Idle == \A w \in Waiters : wst[w] \in {"none", "run"}
WaitInv(w, t) == /\ wst[w] = "none" /\ Idle
                 /\ wst' = [wst EXCEPT ![w] = "check"] /\ wth' = [wth EXCEPT ![w] = t]
                 /\ UNCHANGED <<cnt, cst, cth, arg, wby>>
WaitLin(w) == /\ wst[w] = "check" /\ wst' = [wst EXCEPT ![w] = IF cnt = 0 THEN "pass" ELSE "wait"]
              /\ UNCHANGED <<cnt, cst, cth, arg, wth, wby>>
Resume(w, t) == /\ wst[w] \in {"pass", "rel"} /\ wth[w] = t /\ wst' = [wst EXCEPT ![w] = "run"]
                /\ UNCHANGED <<cnt, cst, cth, arg, wth, wby>>
WaitRet(w, t) == wst[w] # "none" /\ ~(wst[w] \in {"check", "pass"} /\ wth[w] = t) /\ UNCHANGED vars
Lin == (\E c \in Calls : AddLin(c) \/ CountLin(c) \/ DecLin(c)) \/ \E w \in Waiters : WaitLin(w)
Quiesce(v) == /\ v = cnt /\ (\A c \in Calls : cst[c] \in {"none", "done"})
              /\ \A w \in Waiters : wst[w] \in (IF cnt = 0 THEN {"none", "run"} ELSE {"none", "run", "wait"})
              /\ UNCHANGED vars
\* ---- properties
OneWaiter == Cardinality({w \in Waiters : wst[w] \notin {"none", "run"}}) <= 1
NobodyWaitsAtZero == cnt = 0 => \A w \in Waiters : wst[w] # "wait"
ReleasedBySomeone == \A w \in Waiters : wst[w] = "rel" => wby[w] # NoCall /\ cst[wby[w]] = "lin" /\ arg[wby[w]] = 0
=============================================================================
