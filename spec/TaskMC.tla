------------------------------- MODULE TaskMC ------------------------------
EXTENDS Task, TLC
VARIABLE gate   \* gate[k]: the body of k may end
mvars == <<vars, gate>>
Defs == {d \in [Tasks -> [lazy : BOOLEAN, body : BOOLEAN, thr : BOOLEAN, fwd : Tasks \cup {-1}]] :
           \A k \in Tasks : /\ d[k].fwd < k
                            /\ (~d[k].body => d[k].fwd >= 0)
                            /\ (d[k].fwd >= 0 => ~d[k].thr)
                            /\ \A j \in Tasks : j # k /\ d[j].fwd >= 0 => d[j].fwd # d[k].fwd}
Init == (\E d \in Defs : Init0(d)) /\ gate = [k \in Tasks |-> FALSE]
Free(k) == \A j \in Tasks : def[j].fwd # k
Client(k) == \/ CreateInv(k) /\ (def[k].fwd >= 0 => hs[def[k].fwd] = "held")
             \/ AwaitInv(k) /\ (\A j \in Tasks : def[j].fwd = k => def[j].body /\ ts[j] = "body")
             \/ DropInv(k) /\ ~(Started(k) /\ ~Finished(k)) /\ (\A j \in Tasks : def[j].fwd = k => ~def[j].body \/ ts[j] \in {"out", "gone"})
System(k) == CreateRet(k) \/ BodyIn(k) \/ (gate[k] /\ BodyOut(k)) \/ AwaitDone(k, Outcome(k).exc, Outcome(k).v, Outcome(k).v + 1)
             \/ ParamOut(k) \/ DropRet(k)
Open(k) == ~gate[k] /\ gate' = [gate EXCEPT ![k] = TRUE] /\ UNCHANGED vars
Next == (\E k \in Tasks : Client(k) /\ UNCHANGED gate) \/ (\E k \in Tasks : System(k) /\ UNCHANGED gate) \/ \E k \in Tasks : Open(k)
Spec == Init /\ [][Next]_mvars /\ (\A k \in Tasks : WF_mvars(System(k) /\ UNCHANGED gate) /\ WF_mvars(Open(k)))
        /\ \A k \in Tasks : WF_mvars(Client(k) /\ UNCHANGED gate /\ \E j \in Tasks : FwdBy(k, j) /\ ts[j] = "body" /\ hs[k] = "held")
\* an await of a task that is not (yet) destroyed completes
AwaitCompletes == \A k \in Tasks : hs[k] = "await" ~> hs[k] # "await"
RunsOnce == [][\A k \in Tasks : ts[k] = "out" => ts'[k] \in {"out", "gone"}]_vars
============================================================================
