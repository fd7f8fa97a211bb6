---------------------------- MODULE StopAwaitMC ----------------------------
EXTENDS StopAwait, TLC
VARIABLE busy   \* busy[t]: what thread t is inside of
mvars == <<vars, busy>>
Init == Init0(Cardinality(Threads)) /\ busy = [t \in Threads |-> <<"no", 0>>]
Set(t, x) == busy' = [busy EXCEPT ![t] = x]
Client(t) == /\ busy[t] = <<"no", 0>>
             /\ \/ ReqInv(t) /\ Set(t, <<"req", 0>>)
                \/ \E w \in Waiters : WaitInv(w, t) /\ Set(t, <<"wait", w>>)
                \/ srcs > 0 /\ pend = {} /\ SrcDropInv /\ Set(t, <<"drop", 0>>)
Done(t) == \/ busy[t][1] = "req" /\ ReqRet(t) /\ Set(t, <<"no", 0>>)
           \/ /\ busy[t][1] = "wait" /\ Set(t, <<"no", 0>>) /\ WaitRet(busy[t][2])
              /\ ~(ws[busy[t][2]] = "wait" /\ (req \/ srcs = 0))
           \/ busy[t][1] = "drop" /\ SrcDropRet /\ Set(t, <<"no", 0>>)
Res(w, t) == (wt[w] = t \/ (winner = t /\ busy[t][1] = "req")) /\ Resume(w) /\ UNCHANGED busy
Sys(t) == (ReqLin(t) /\ UNCHANGED busy) \/ \E w \in Waiters : Res(w, t)
Next == \E t \in Threads : Client(t) \/ Done(t) \/ Sys(t)
Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : WF_mvars(Done(t)) /\ WF_mvars(ReqLin(t) /\ UNCHANGED busy) /\ \A w \in Waiters : WF_mvars(Res(w, t))
Resumed == \A w \in Waiters : (ws[w] = "wait" /\ req) ~> ws[w] = "idle"
NotWithout == [][\A w \in Waiters : (ws[w] = "wait" /\ ws'[w] = "idle") => req \/ imp[w]]_vars
============================================================================
