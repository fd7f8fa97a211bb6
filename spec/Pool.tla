-------------------------------- MODULE Pool --------------------------------
(* The thread pool: a queue, delayed work, work tokens and the threads that *)
(* run it, at the level of its interface.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Items, Tokens, Threads
Inf == 1000000
VARIABLES st,     \* st[i]: none, posting, queued, delayed, taken, run, out
          how,    \* how[i]: "q" posted, "g" dispatched, "d" delayed, "i" dispatched inside the pool
          lo,     \* lo[i]: earliest time it may run
          hi,     \* hi[i]: time at which it is due
          cs,     \* cs[i]: its stop token: none, inv, done
          at,     \* at[i]: the thread that runs it
          queue,  \* queued items, oldest first
          tok,    \* tok[w]: none, making, live, dropping, gone (the count was released)
          ext,    \* tok[w] is counted
          rs,     \* rs[t]: none, in, left, out (thread t as a runner)
          join,   \* the runners a join is waiting for
          joining,\* a join is going on
          cr,     \* cr[t]: -1, or how many threads a create_threads called by t still has to start
          now
vars == <<st, how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, cr, now>>

Init0 == /\ st = [i \in Items |-> "none"] /\ how = [i \in Items |-> "q"] /\ lo = [i \in Items |-> 0] /\ hi = [i \in Items |-> Inf]
         /\ cs = [i \in Items |-> "none"] /\ at = [i \in Items |-> -1] /\ queue = <<>>
         /\ tok = [w \in Tokens |-> "none"] /\ ext = [w \in Tokens |-> FALSE]
         /\ rs = [t \in Threads |-> "none"] /\ join = {} /\ joining = FALSE /\ cr = [t \in Threads |-> -1] /\ now = 0

InPool(t) == rs[t] \in {"in"}
Delayed == {i \in Items : st[i] = "delayed"}
Taken == {i \in Items : st[i] = "taken"}
BusyT == {at[i] : i \in {j \in Items : st[j] = "run"}}
Free == {t \in Threads : rs[t] = "in" /\ t \notin BusyT}
NIdle == Cardinality(Free) - Cardinality(Taken)
Empty == (\A w \in Tokens : ~ext[w]) /\ queue = <<>> /\ Delayed = {}

\* ---- posting
PostInv(i, h, d, t) ==
  /\ st[i] = "none"
  /\ st' = [st EXCEPT ![i] = "posting"]
  /\ how' = [how EXCEPT ![i] = IF h = "g" THEN (IF InPool(t) THEN "i" ELSE "q") ELSE h]
  /\ at' = [at EXCEPT ![i] = IF h = "g" /\ InPool(t) THEN t ELSE -1]
  /\ lo' = [lo EXCEPT ![i] = now + d] /\ hi' = [hi EXCEPT ![i] = d]
  /\ UNCHANGED <<cs, queue, tok, ext, rs, join, joining, now, cr>>
\* the item reaches the pool
Push(i) == /\ st[i] = "posting" /\ how[i] # "i"
           /\ IF how[i] = "d"
              THEN st' = [st EXCEPT ![i] = "delayed"] /\ hi' = [hi EXCEPT ![i] = now + @] /\ queue' = queue
              ELSE st' = [st EXCEPT ![i] = "queued"] /\ queue' = Append(queue, i) /\ hi' = hi
           /\ UNCHANGED <<how, lo, cs, at, tok, ext, rs, join, joining, now, cr>>
PostRet(i) == st[i] # "posting" /\ UNCHANGED vars

CancelInv(i) == cs' = [cs EXCEPT ![i] = IF @ = "none" THEN "inv" ELSE @] /\ UNCHANGED <<st, how, lo, hi, at, queue, tok, ext, rs, join, joining, now, cr>>
CancelRet(i) == cs' = [cs EXCEPT ![i] = "done"] /\ UNCHANGED <<st, how, lo, hi, at, queue, tok, ext, rs, join, joining, now, cr>>

\* ---- running
\* a runner picks the oldest posted item, or the delayed one that is due first
TakeQ == /\ queue # <<>> /\ NIdle > 0
         /\ st' = [st EXCEPT ![Head(queue)] = "taken"] /\ queue' = Tail(queue)
         /\ UNCHANGED <<how, lo, hi, cs, at, tok, ext, rs, join, joining, now, cr>>
TakeD(i) == /\ st[i] = "delayed" /\ NIdle > 0
            /\ cs[i] # "none" \/ (now >= lo[i] /\ \A j \in Delayed : cs[j] # "none" \/ hi[j] >= lo[i])
            /\ st' = [st EXCEPT ![i] = "taken"]
            /\ UNCHANGED <<how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, now, cr>>
Run(i, t) == \/ /\ st[i] = "taken" /\ t \in Free
                /\ st' = [st EXCEPT ![i] = "run"] /\ at' = [at EXCEPT ![i] = t]
                /\ UNCHANGED <<how, lo, hi, cs, queue, tok, ext, rs, join, joining, now, cr>>
             \/ /\ st[i] = "posting" /\ how[i] = "i" /\ at[i] = t
                /\ st' = [st EXCEPT ![i] = "run"]
                /\ UNCHANGED <<how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, now, cr>>
RunOut(i, t) == /\ st[i] = "run" /\ at[i] = t /\ st' = [st EXCEPT ![i] = "out"]
                /\ UNCHANGED <<how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, now, cr>>

\* ---- work tokens
WorkInv(w) == tok[w] = "none" /\ tok' = [tok EXCEPT ![w] = "making"] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, ext, rs, join, joining, now, cr>>
\* the constructor that also creates threads: they find the work
WorkMade(w) == tok[w] = "none" /\ tok' = [tok EXCEPT ![w] = "making"] /\ ext' = [ext EXCEPT ![w] = TRUE] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, rs, join, joining, now, cr>>
WorkInc(w) == tok[w] = "making" /\ ~ext[w] /\ ext' = [ext EXCEPT ![w] = TRUE] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, rs, join, joining, now, cr>>
WorkRet(w) == tok[w] = "making" /\ ext[w] /\ tok' = [tok EXCEPT ![w] = "live"] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, ext, rs, join, joining, now, cr>>
DropInv(w) == tok[w] = "live" /\ tok' = [tok EXCEPT ![w] = "dropping"] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, ext, rs, join, joining, now, cr>>
WorkDec(w) == tok[w] = "dropping" /\ ext[w] /\ ext' = [ext EXCEPT ![w] = FALSE] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, rs, join, joining, now, cr>>
DropRet(w) == tok[w] = "dropping" /\ ~ext[w] /\ tok' = [tok EXCEPT ![w] = "none"] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, ext, rs, join, joining, now, cr>>

\* ---- runners
\* a thread calls run()
RunnerIn(t) == rs[t] \in {"none", "out"} /\ rs' = [rs EXCEPT ![t] = "in"] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, join, joining, now, cr>>
\* create_threads(k): they are started unless there was nothing to do
CreateInv(t, k) == cr[t] = -1 /\ cr' = [cr EXCEPT ![t] = k] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, now>>
Created(u, t) == /\ cr[t] > 0 /\ cr' = [cr EXCEPT ![t] = @ - 1] /\ rs[u] = "none" /\ rs' = [rs EXCEPT ![u] = "in"]
                 /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, join, joining, now>>
CreateSkip(t) == /\ cr[t] > 0 /\ Empty /\ cr' = [cr EXCEPT ![t] = 0]
                 /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, now>>
CreateRet(t) == cr[t] = 0 /\ cr' = [cr EXCEPT ![t] = -1] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, now>>
\* a runner leaves only when there is nothing left to do
Leave(t) == /\ t \in Free /\ NIdle > 0 /\ Empty
            /\ rs' = [rs EXCEPT ![t] = "left"] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, join, joining, now, cr>>
RunnerOut(t) == rs[t] = "left" /\ rs' = [rs EXCEPT ![t] = "out"] /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, join, joining, now, cr>>
JoinInv(t) == ~joining /\ joining' = TRUE /\ join' = {u \in Threads : rs[u] \in {"in", "left"}} \ {t}
              /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, rs, now, cr>>
\* only threads the pool created are joined: the others take part as long as they like
JoinRet(own) == joining /\ joining' = FALSE /\ join' = {} /\ (\A u \in join \ own : rs[u] # "in")
                /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, rs, now, cr>>

\* ---- time
\* what has to hold before everybody sleeps until time n
Settled(n, own) == /\ \A i \in Items : st[i] # "taken" /\ st[i] # "posting"
                   /\ \A t \in Threads : cr[t] = -1
                   /\ NIdle > 0 => /\ queue = <<>> /\ ~Empty
                                   /\ \A i \in Delayed : cs[i] = "none" /\ hi[i] >= n
                   /\ \A t \in own : rs[t] # "left"
                   /\ joining => \E u \in join \ own : rs[u] = "in"
Tick(n, idle, own) == /\ n >= now /\ (idle => Settled(n, own)) /\ now' = n
                      /\ UNCHANGED <<st, how, lo, hi, cs, at, queue, tok, ext, rs, join, joining, cr>>

Quiesce == /\ \A i \in Items : st[i] \in {"none", "out"}
           /\ \A t \in Threads : rs[t] \in {"none", "left", "out"}
           /\ \A w \in Tokens : tok[w] = "none"
           /\ \A t \in Threads : cr[t] = -1
           /\ ~joining /\ UNCHANGED vars
\* ---- properties
RunByPool == \A i \in Items : st[i] = "run" => rs[at[i]] = "in"
QueueOK == \A k \in 1..Len(queue) : st[queue[k]] = "queued"
EnoughRunners == NIdle >= 0
NotEarly == \A i \in Items : (how[i] = "d" /\ st[i] \in {"taken", "run", "out"}) => now >= lo[i] \/ cs[i] # "none"
=============================================================================
