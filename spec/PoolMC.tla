------------------------------ MODULE PoolMC -------------------------------
(* All clients of the pool: one outside thread posts, delays, cancels,      *)
(* holds a work token and joins; items may post further ones.               *)
EXTENDS Pool, TLC
CONSTANTS Runners, MaxNow
Ext == 0
Init == Init0
InFlight == \E i \in Items : st[i] = "posting"
Client == \/ \E i \in Items, h \in {"q", "g", "d"}, t \in Threads :
               /\ \A j \in Items : j < i => st[j] # "none"
               /\ IF t = Ext THEN ~joining /\ ~(\E j \in Items : st[j] = "posting" /\ at[j] = -1) ELSE \E j \in Items : st[j] = "run" /\ at[j] = t
               /\ h = "d" => now + 2 <= MaxNow
               /\ PostInv(i, h, IF h = "d" THEN 1 + (i % 2) ELSE 0, t)
          \/ \E i \in Items : how[i] = "d" /\ CancelInv(i) /\ cs[i] = "none"
          \/ \E w \in Tokens : WorkInv(w) /\ ~joining /\ (\A t \in Runners : rs[t] = "none")
          \/ \E k \in 1..Cardinality(Runners) : ~joining /\ (\A t \in Runners : rs[t] = "none") /\ CreateInv(Ext, k)
          \/ ~joining /\ ~InFlight /\ (\A w \in Tokens : tok[w] # "making") /\ (\E t \in Runners : rs[t] = "in") /\ cr[Ext] = -1 /\ JoinInv(Ext)
DropW == \E w \in Tokens : DropInv(w)
CancelR(i) == cs[i] = "inv" /\ CancelRet(i)
CreateM == CreateSkip(Ext) \/ CreateRet(Ext) \/ (cr[Ext] > 0 /\ LET u == CHOOSE v \in Runners : rs[v] = "none" IN Created(u, Ext))
\* time passes only when it is waited for
TickM == \/ now < MaxNow /\ Tick(now + 1, TRUE, {})
         \/ now < MaxNow /\ (\A i \in Items : st[i] = "posting" /\ how[i] = "d" => now + 3 <= MaxNow) /\ Tick(now + 1, FALSE, {})
\* what was dispatched inside an item ends before it
Out(i) == \E t \in Threads : RunOut(i, t) /\ ~\E j \in Items : j > i /\ how[j] = "i" /\ st[j] \in {"posting", "run"} /\ at[j] = t
Sys(i) == Push(i) \/ TakeD(i) \/ CancelR(i) \/ \E t \in Threads : Run(i, t)
Next == \/ Client \/ DropW \/ TickM \/ TakeQ
        \/ \E i \in Items : Sys(i) \/ Out(i)
        \/ \E w \in Tokens : WorkInc(w) \/ WorkRet(w) \/ WorkDec(w) \/ DropRet(w)
        \/ \E t \in Threads : Leave(t)
        \/ JoinRet({}) \/ CreateM
Fair == /\ WF_vars(TakeQ) /\ WF_vars(JoinRet({})) /\ WF_vars(DropW) /\ WF_vars(CreateM) /\ WF_vars(now < MaxNow /\ Tick(now + 1, TRUE, {}))
        /\ \A i \in Items : WF_vars(Push(i)) /\ WF_vars(TakeD(i)) /\ WF_vars(CancelR(i)) /\ WF_vars(\E t \in Threads : Run(i, t)) /\ WF_vars(Out(i))
        /\ \A w \in Tokens : WF_vars(WorkInc(w)) /\ WF_vars(WorkRet(w)) /\ WF_vars(WorkDec(w)) /\ WF_vars(DropRet(w))
        /\ \A t \in Threads : WF_vars(Leave(t))
Spec == Init /\ [][Next]_vars /\ Fair
\* items that are posted while somebody runs the pool are run, and a join returns
Active == \E t \in Threads : rs[t] = "in"
Served == \A i \in Items : (st[i] \in {"queued", "delayed"} /\ Active) ~> st[i] = "out"
JoinReturns == joining ~> ~joining
JoinNeedsEnd == [][joining /\ ~joining' => \A t \in Threads : rs[t] # "in"]_vars
OnceOnly == [][\A i \in Items : st[i] = "out" => st'[i] = "out"]_vars
LeaveOnlyEmpty == [][\A t \in Threads : rs[t] = "in" /\ rs'[t] = "left" => queue = <<>> /\ Delayed = {} /\ \A w \in Tokens : ~ext[w]]_vars
\* a create_threads either starts its threads or there was nothing to do
CreateStarts == [][cr[Ext] > 0 /\ cr'[Ext] = 0 => Empty \/ \E t \in Runners : rs[t] = "none" /\ rs'[t] = "in"]_vars
CreateReturns == cr[Ext] # -1 ~> cr[Ext] = -1
============================================================================
