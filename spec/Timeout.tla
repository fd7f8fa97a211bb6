------------------------------- MODULE Timeout ------------------------------
(* Timeouts, and take_until: an operation together with a trigger that is   *)
(* stopped when the operation is done.  Trigger k belongs to operation k,   *)
(* it is a timeout or made by hand.                                         *)
EXTENDS Integers, FiniteSets
CONSTANTS Ids
Inf == 1000000
VARIABLES mk,    \* mk[k]: none, making, armed (timeout k)
          lo, hi,\* when it may / has to be over
          outer, \* it follows an outer token
          req,   \* req[k]: none, inv, done: an explicit request to stop it
          oreq,  \* the same for the outer token
          stp,   \* its stop callback ran
          aw,    \* aw[k]: none, wait, done (somebody awaiting the timeout)
          op,    \* op[k]: none, started, in, out (operation k)
          exc,   \* the operation throws
          ow,    \* ow[k]: none, wait, done: the operation waits for the token
          hand,  \* trigger k is made by hand ...
          trig,  \* ... and is: none, stopped, in, out
          ret,   \* take_until returned
          now
vars == <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, ow, hand, trig, ret, now>>
Init0 == /\ mk = [k \in Ids |-> "none"] /\ lo = [k \in Ids |-> 0] /\ hi = [k \in Ids |-> Inf] /\ outer = [k \in Ids |-> FALSE]
         /\ req = [k \in Ids |-> "none"] /\ oreq = [k \in Ids |-> "none"] /\ stp = [k \in Ids |-> FALSE] /\ aw = [k \in Ids |-> "none"]
         /\ op = [k \in Ids |-> "none"] /\ exc = [k \in Ids |-> FALSE] /\ ow = [k \in Ids |-> "none"] /\ hand = [k \in Ids |-> FALSE]
         /\ trig = [k \in Ids |-> "none"] /\ ret = [k \in Ids |-> FALSE] /\ now = 0

\* something asked trigger k to stop (may have happened / has happened)
Cause(k) == \/ req[k] # "none" \/ (outer[k] /\ oreq[k] # "none")
            \/ mk[k] # "none" /\ now >= lo[k]
            \/ ~hand[k] /\ op[k] = "out"
            \/ trig[k] # "none"
Must(k) == req[k] = "done" \/ (outer[k] /\ oreq[k] = "done" /\ mk[k] = "armed") \/ stp[k] \/ aw[k] = "done" \/ ret[k]

MakeInv(k, d, o) == /\ mk[k] = "none" /\ mk' = [mk EXCEPT ![k] = "making"] /\ lo' = [lo EXCEPT ![k] = now + d] /\ hi' = [hi EXCEPT ![k] = d]
                    /\ outer' = [outer EXCEPT ![k] = o]
                    /\ UNCHANGED <<req, oreq, stp, aw, op, exc, ow, hand, trig, ret, now>>
MakeRet(k) == /\ mk[k] = "making" /\ mk' = [mk EXCEPT ![k] = "armed"] /\ hi' = [hi EXCEPT ![k] = now + @]
              /\ UNCHANGED <<lo, outer, req, oreq, stp, aw, op, exc, ow, hand, trig, ret, now>>
ReqInv(k) == req' = [req EXCEPT ![k] = IF @ = "none" THEN "inv" ELSE @] /\ UNCHANGED <<mk, lo, hi, outer, oreq, stp, aw, op, exc, ow, hand, trig, ret, now>>
ReqRet(k) == req' = [req EXCEPT ![k] = "done"] /\ UNCHANGED <<mk, lo, hi, outer, oreq, stp, aw, op, exc, ow, hand, trig, ret, now>>
OuterInv(k) == oreq' = [oreq EXCEPT ![k] = IF @ = "none" THEN "inv" ELSE @] /\ UNCHANGED <<mk, lo, hi, outer, req, stp, aw, op, exc, ow, hand, trig, ret, now>>
OuterRet(k) == oreq' = [oreq EXCEPT ![k] = "done"] /\ UNCHANGED <<mk, lo, hi, outer, req, stp, aw, op, exc, ow, hand, trig, ret, now>>
\* the callback on the token: once, and for a reason
Stopped(k) == ~stp[k] /\ Cause(k) /\ stp' = [stp EXCEPT ![k] = TRUE] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, aw, op, exc, ow, hand, trig, ret, now>>
Ask(k, v) == (IF v THEN Cause(k) ELSE ~Must(k)) /\ UNCHANGED vars
AwaitInv(k) == mk[k] = "armed" /\ aw[k] = "none" /\ aw' = [aw EXCEPT ![k] = "wait"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, op, exc, ow, hand, trig, ret, now>>
AwaitRet(k) == aw[k] = "wait" /\ Cause(k) /\ aw' = [aw EXCEPT ![k] = "done"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, op, exc, ow, hand, trig, ret, now>>
\* ---- take_until
TakeInv(k, e, h) == /\ op[k] = "none" /\ op' = [op EXCEPT ![k] = "started"] /\ exc' = [exc EXCEPT ![k] = e] /\ hand' = [hand EXCEPT ![k] = h]
                    /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, ow, trig, ret, now>>
OpIn(k) == op[k] = "started" /\ op' = [op EXCEPT ![k] = "in"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, exc, ow, hand, trig, ret, now>>
OpOut(k) == op[k] = "in" /\ ow[k] # "wait" /\ op' = [op EXCEPT ![k] = "out"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, exc, ow, hand, trig, ret, now>>
OpWait(k) == op[k] = "in" /\ ow[k] # "wait" /\ ow' = [ow EXCEPT ![k] = "wait"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, hand, trig, ret, now>>
OpTok(k) == ow[k] = "wait" /\ Cause(k) /\ ow' = [ow EXCEPT ![k] = "done"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, hand, trig, ret, now>>
\* the trigger is stopped once, after the operation, and then awaited
TrigStop(k) == hand[k] /\ op[k] = "out" /\ trig[k] = "none" /\ trig' = [trig EXCEPT ![k] = "stopped"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, ow, hand, ret, now>>
TrigIn(k) == trig[k] = "stopped" /\ trig' = [trig EXCEPT ![k] = "in"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, ow, hand, ret, now>>
TrigOut(k) == trig[k] = "in" /\ trig' = [trig EXCEPT ![k] = "out"] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, ow, hand, ret, now>>
\* the result is the operation's, whatever the trigger ended with, and both are over
TakeRet(k, x, v, d) == /\ op[k] = "out" /\ ~ret[k] /\ (hand[k] => trig[k] = "out")
                       /\ x = exc[k] /\ v = k /\ d = k + 1
                       /\ ret' = [ret EXCEPT ![k] = TRUE] /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, ow, hand, trig, now>>
\* ---- time
Over(k) == stp[k] /\ aw[k] # "wait"
Asked(k) == req[k] = "done" \/ (outer[k] /\ oreq[k] = "done") \/ op[k] = "out"
Settled(n) == \A k \in Ids : /\ mk[k] # "making"
                             /\ mk[k] = "armed" /\ ~Over(k) => ~Asked(k) /\ hi[k] >= n
                             /\ stp[k] => ow[k] # "wait"
                             /\ op[k] # "started"
                             /\ op[k] = "out" => ret[k] \/ (hand[k] /\ trig[k] = "in")
Tick(n, idle) == n >= now /\ (idle => Settled(n)) /\ now' = n /\ UNCHANGED <<mk, lo, hi, outer, req, oreq, stp, aw, op, exc, ow, hand, trig, ret>>
Quiesce == Settled(Inf + 1) /\ (\A k \in Ids : op[k] \in {"none", "out"} /\ (op[k] = "out" => ret[k])) /\ UNCHANGED vars
\* ---- properties
StoppedForReason == \A k \in Ids : stp[k] => Cause(k)
AwaitedIsStopped == \A k \in Ids : aw[k] = "done" => Cause(k)
RetIsOver == \A k \in Ids : ret[k] => op[k] = "out" /\ (hand[k] => trig[k] = "out")
=============================================================================
