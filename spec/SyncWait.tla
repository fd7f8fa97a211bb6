------------------------------ MODULE SyncWait ------------------------------
(* Blocking on an operation: sync_wait(x) and make_blocking(x) ... get().   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ops, Gates
VARIABLES def,    \* def[k]: [eager: may start before the wait, body: a coroutine that reports its end, thr: ends by throwing, g: gates it waits for]
          open,   \* gates opened
          run,    \* run[k]: none, in, out
          blk     \* blk[k]: none, start (starting, or sync_wait blocked), made, get, done, gone
vars == <<def, open, run, blk>>
NoDef == [eager |-> FALSE, body |-> TRUE, thr |-> FALSE, g |-> <<>>]
Init0(D) == /\ def = D /\ open = {} /\ run = [k \in Ops |-> "none"] /\ blk = [k \in Ops |-> "none"]

GatesOpen(k) == \A i \in 1..Len(def[k].g) : def[k].g[i] \in open
\* the operation has completed
Complete(k) == run[k] # "none" /\ (IF def[k].body THEN run[k] = "out" ELSE GatesOpen(k))
\* it must not start on its own; a wait of a finished operation does not run a body again
Inv(k) == blk[k] \in {"none", "done"} /\ blk' = [blk EXCEPT ![k] = "start"] /\ UNCHANGED <<def, open, run>>
In(k) == /\ (blk[k] = "start" \/ def[k].eager) /\ (run[k] = "none" \/ (run[k] = "in" /\ ~def[k].body /\ GatesOpen(k)))
         /\ run' = [run EXCEPT ![k] = "in"] /\ UNCHANGED <<def, open, blk>>
Out(k) == /\ def[k].body /\ run[k] = "in" /\ GatesOpen(k)
          /\ run' = [run EXCEPT ![k] = "out"] /\ UNCHANGED <<def, open, blk>>
Open(j) == open' = open \cup {j} /\ UNCHANGED <<def, run, blk>>
\* make_blocking has started the operation before it returns, and does not wait for its end
Made(k) == blk[k] = "start" /\ run[k] # "none" /\ blk' = [blk EXCEPT ![k] = "made"] /\ UNCHANGED <<def, open, run>>
GetInv(k) == blk[k] = "made" /\ blk' = [blk EXCEPT ![k] = "get"] /\ UNCHANGED <<def, open, run>>
\* only after completion; the value or exception of that operation
Ret(k, x, v, d) == /\ blk[k] \in {"start", "get"} /\ Complete(k)
                   /\ x = def[k].thr /\ v = k /\ d = k + 1
                   /\ blk' = [blk EXCEPT ![k] = "done"] /\ UNCHANGED <<def, open, run>>
Drop(k) == /\ (blk[k] = "done" \/ (blk[k] = "made" /\ Complete(k)))
           /\ blk' = [blk EXCEPT ![k] = "gone"] /\ UNCHANGED <<def, open, run>>
End == \A k \in Ops : blk[k] \notin {"start", "get"}
\* ---- properties
RetComplete == \A k \in Ops : blk[k] \in {"done", "gone"} => Complete(k)
StartedOnce == [][\A k \in Ops : def[k].body /\ run[k] # "none" => run'[k] # "none" /\ (run[k] = "out" => run'[k] = "out")]_vars
=============================================================================
