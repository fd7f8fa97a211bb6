------------------------------ MODULE ScopeMC ------------------------------
(* All clients of a scope: tasks added by the main program or by tasks,    *)
(* one join at a time, handles dropped or awaited at any point.            *)
EXTENDS Scope, TLC
VARIABLE ops
Init == (\E K \in [Tasks -> {"v", "e"}] : Init0(K)) /\ ops = 0
Exc(S) == CHOOSE s \in [1..Cardinality(S) -> S] : ToSet(s) = S
\* a task is added before a join started or by a task that is running
Client == \E k \in Tasks :
   \/ AddInv(k) /\ ((\A j \in Joins : js[j] \notin {"joining", "lin"}) \/ \E p \in Tasks : p # k /\ ts[p] = "body")
   \/ DropInv(k) \/ AwaitInv(k)
ClientJ == \E j \in Joins : (\A i \in Joins : js[i] \notin {"joining", "lin"}) /\ (\A i \in Joins : i < j => js[i] = "done") /\ JoinInv(j)
System == \/ \E k \in Tasks : BodyIn(k) \/ AddRet(k) \/ BodyOut(k) \/ DropRet(k)
                \/ AwaitDone(k, kind[k] = "e", k, k + 1)
          \/ \E j \in Joins : JoinLin(j)
          \/ \E j \in Joins, S \in SUBSET Unawaited : JoinRet(j, Exc(S))
Next == (Client \/ ClientJ \/ System) /\ UNCHANGED ops
Spec == Init /\ [][Next]_<<vars, ops>> /\ WF_<<vars, ops>>(System /\ UNCHANGED ops)
\* a join completes, and everything that was awaited is delivered
JoinCompletes == \A j \in Joins : js[j] = "joining" ~> js[j] = "done"
AwaitCompletes == \A k \in Tasks : hs[k] = "await" ~> hs[k] = "taken"
\* an exception is delivered by at most one join, and never lost once dropped before the last join
Once == [][deliv \subseteq deliv']_vars
JoinedMeansDone == [][\A j \in Joins : js[j] = "joining" /\ js'[j] # js[j] => AllOut]_vars
============================================================================
