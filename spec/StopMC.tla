------------------------------- MODULE StopMC ------------------------------
EXTENDS Stop, TLC
VARIABLE ops   \* ops[t]: what thread t does: idle, req, reg(i), der(i)
mvars == <<vars, ops>>
Init == Init0(1) /\ ops = [t \in Threads |-> <<"idle", 0>>]
Set(t, x) == ops' = [ops EXCEPT ![t] = x]
Client(t) == /\ ops[t] = <<"idle", 0>>
             /\ \/ ReqInv(t) /\ Set(t, <<"req", 0>>)
                \/ \E i \in Cbs : RegInv(i, t) /\ Set(t, <<"reg", i>>)
                \/ \E i \in Cbs : DerInv(i) /\ Set(t, <<"der", i>>)
Done(t) == \/ ops[t][1] = "req" /\ (\E w \in {"y", "n"} : ReqRet(t, w)) /\ Set(t, <<"idle", 0>>)
           \/ ops[t][1] = "reg" /\ RegRet(ops[t][2]) /\ Set(t, <<"idle", 0>>)
           \/ ops[t][1] = "der" /\ DerRet(ops[t][2], t) /\ Set(t, <<"idle", 0>>)
Sys(t) == (ReqLin(t) \/ \E i \in Cbs : CbIn(i, t) \/ CbOut(i, t)) /\ UNCHANGED ops
\* a callback that is being deregistered need not run, so it is not obliged to start
SysFair(t) == (ReqLin(t) \/ \E i \in Cbs : (cb[i] # "dering" /\ CbIn(i, t)) \/ CbOut(i, t)) /\ UNCHANGED ops
Next == \E t \in Threads : Client(t) \/ Done(t) \/ Sys(t)
Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : WF_mvars(Done(t)) /\ WF_mvars(SysFair(t))
OneWinner == [][winner # -1 => winner' = winner]_vars
NeverAfterDereg == [][\A i \in Cbs : cb[i] = "gone" => (run[i] = "no" => run'[i] = "no")]_vars
AtMostOnce == [][\A i \in Cbs : run[i] = "ran" => run'[i] = "ran"]_vars
OpsEnd == \A t \in Threads : ops[t][1] # "idle" ~> ops[t][1] = "idle"
============================================================================
