------------------------------- MODULE Scope -------------------------------
(* Scopes of eagerly started tasks (async_scope, when_all_scope) and the    *)
(* handles of their tasks, at the level of the interface.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Tasks, Joins
VARIABLES kind,   \* kind[k]: "v" value, "n" nothing, "e" throws, "c" value (adds a further task)
          ts,     \* ts[k]: none, adding, body, out   (life of the task's body)
          hs,     \* hs[k]: none, held, dropping, dropped, await, taken   (its handle)
          js,     \* js[j]: none, joining, lin (all tasks were finished), done
          must,   \* must[j]: exceptions join j has to deliver
          deliv,  \* tasks whose exception was delivered by a join
          sst,    \* structured scope: none, inv, body, out, ret
          thrown  \* its body threw
vars == <<kind, ts, hs, js, deliv, sst, thrown, must>>

Init0(K) == /\ kind = K /\ ts = [k \in Tasks |-> "none"] /\ hs = [k \in Tasks |-> "none"]
            /\ js = [j \in Joins |-> "none"] /\ must = [j \in Joins |-> {}] /\ deliv = {} /\ sst = "none" /\ thrown = FALSE

AddInv(k) == ts[k] = "none" /\ ts' = [ts EXCEPT ![k] = "adding"] /\ UNCHANGED <<kind, hs, js, deliv, sst, thrown, must>>
\* the task starts at once ...
BodyIn(k) == ts[k] = "adding" /\ ts' = [ts EXCEPT ![k] = "body"] /\ UNCHANGED <<kind, hs, js, deliv, sst, thrown, must>>
AddRet(k) == /\ ts[k] \in {"body", "out"} /\ hs[k] = "none"
             /\ hs' = [hs EXCEPT ![k] = "held"] /\ UNCHANGED <<kind, ts, js, deliv, sst, thrown, must>>
\* ... and runs to its end, where its locals are destroyed
BodyOut(k) == ts[k] = "body" /\ ts' = [ts EXCEPT ![k] = "out"] /\ UNCHANGED <<kind, hs, js, deliv, sst, thrown, must>>
DropInv(k) == hs[k] = "held" /\ hs' = [hs EXCEPT ![k] = "dropping"] /\ UNCHANGED <<kind, ts, js, deliv, sst, thrown, must>>
DropRet(k) == hs[k] = "dropping" /\ hs' = [hs EXCEPT ![k] = "dropped"] /\ UNCHANGED <<kind, ts, js, deliv, sst, thrown, must>>
AwaitInv(k) == hs[k] = "held" /\ hs' = [hs EXCEPT ![k] = "await"] /\ UNCHANGED <<kind, ts, js, deliv, sst, thrown, must>>
\* the awaiter continues once, after the end of the body, with the task's own result
AwaitDone(k, exc, v, d) == /\ hs[k] = "await" /\ ts[k] = "out"
                           /\ exc <=> kind[k] = "e"
                           /\ v = k /\ d = k + 1
                           /\ hs' = [hs EXCEPT ![k] = "taken"] /\ UNCHANGED <<kind, ts, js, deliv, sst, thrown, must>>
ReadyAtRest(k, v) == (v <=> ts[k] = "out") /\ UNCHANGED vars
Ready(k, v) == (v => ts[k] = "out") /\ UNCHANGED vars

JoinInv(j) == js[j] = "none" /\ js' = [js EXCEPT ![j] = "joining"] /\ UNCHANGED <<kind, ts, hs, deliv, sst, thrown, must>>
AllOut == \A k \in Tasks : ts[k] \in {"none", "out"}
ToSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Unawaited == {k \in Tasks : kind[k] = "e" /\ ts[k] = "out" /\ hs[k] \in {"dropping", "dropped"}} \ deliv
MustDeliver == {k \in Unawaited : hs[k] = "dropped"}
\* the join finds all tasks finished and collects the exceptions nobody else will see; a handle given up
\* concurrently with that may or may not be seen (a later join delivers it then)
JoinLin(j) == /\ js[j] = "joining" /\ AllOut
              /\ js' = [js EXCEPT ![j] = "lin"] /\ must' = [must EXCEPT ![j] = MustDeliver]
              /\ UNCHANGED <<kind, ts, hs, deliv, sst, thrown>>
JoinRet(j, ex) == /\ js[j] = "lin"
                  /\ NoDup(ex) /\ (must[j] \ deliv) \subseteq ToSet(ex) /\ ToSet(ex) \subseteq Unawaited
                  /\ deliv' = deliv \cup ToSet(ex)
                  /\ js' = [js EXCEPT ![j] = "done"] /\ UNCHANGED <<kind, ts, hs, sst, thrown, must>>

\* ---- structured scope
ScopeInv == sst = "none" /\ sst' = "inv" /\ UNCHANGED <<kind, ts, hs, js, deliv, thrown, must>>
ScopeBodyIn == sst = "inv" /\ sst' = "body" /\ UNCHANGED <<kind, ts, hs, js, deliv, thrown, must>>
BodyThrow == sst = "body" /\ ~thrown /\ thrown' = TRUE /\ UNCHANGED <<kind, ts, hs, js, deliv, sst, must>>
\* all handles still held go out of scope with the body
ScopeBodyOut == /\ sst = "body" /\ sst' = "out"
                /\ hs' = [k \in Tasks |-> IF hs[k] = "held" THEN "dropped" ELSE hs[k]]
                /\ UNCHANGED <<kind, ts, js, deliv, thrown, must>>
BodyExc == 50
ScopeRet(ex, d) == /\ sst = "out" /\ AllOut /\ d = 5 /\ sst' = "ret"
                   /\ NoDup(ex) /\ ToSet(ex) = Unawaited \cup (IF thrown THEN {BodyExc} ELSE {})
                   /\ UNCHANGED <<kind, ts, hs, js, deliv, thrown, must>>
\* known deviation: exceptions are swallowed
ScopeRetSwallow(ex, d) == /\ sst = "out" /\ AllOut /\ d = 5 /\ sst' = "ret" /\ ex = <<>>
                          /\ UNCHANGED <<kind, ts, hs, js, deliv, thrown, must>>

Quiesce == /\ AllOut
           /\ \A k \in Tasks : hs[k] \notin {"await", "dropping"}
           /\ \A j \in Joins : js[j] \notin {"joining", "lin"}
           /\ sst \in {"none", "ret"}
           /\ UNCHANGED vars
\* ---- properties
HandleNeedsTask == \A k \in Tasks : hs[k] # "none" => ts[k] \in {"body", "out"}
TakenIsDone == \A k \in Tasks : hs[k] = "taken" => ts[k] = "out"
DelivOnlyUnawaited == \A k \in deliv : kind[k] = "e" /\ hs[k] \in {"dropping", "dropped"}
=============================================================================
