------------------------------ MODULE WhenAll ------------------------------
(* Awaiting all of a set of awaitables.  Children may themselves wait for   *)
(* other groups (their bodies do; that needs no rule of its own: a child    *)
(* is finished when its body ended).                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kids0, Groups0
VARIABLES def,   \* def[k] = [lazy, thr]
          kids,  \* kids[a]: the sequence of children of group a
          ts,    \* ts[k]: none, body, out, gone
          gs     \* gs[a]: none, await, ret, dropping, dropped
vars == <<def, kids, ts, gs>>
Init0(D, G) == def = D /\ kids = G /\ ts = [k \in Kids0 |-> "none"] /\ gs = [a \in Groups0 |-> "none"]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Parent(k) == {a \in Groups0 : k \in SetOf(kids[a])}
Finished(k) == ts[k] \in {"out", "gone"}
AllInv(a) == gs[a] = "none" /\ gs' = [gs EXCEPT ![a] = "await"] /\ UNCHANGED <<def, kids, ts>>
\* each child is started once, a lazy one not before the group is awaited
ChildIn(k) == /\ ts[k] = "none" /\ (def[k].lazy => \E a \in Parent(k) : gs[a] = "await")
              /\ ts' = [ts EXCEPT ![k] = "body"] /\ UNCHANGED <<def, kids, gs>>
ChildOut(k) == ts[k] = "body" /\ ts' = [ts EXCEPT ![k] = "out"] /\ UNCHANGED <<def, kids, gs>>
AllRet(a) == /\ gs[a] = "await" /\ \A k \in SetOf(kids[a]) : Finished(k)
             /\ gs' = [gs EXCEPT ![a] = "ret"] /\ UNCHANGED <<def, kids, ts>>
AllAgain(a) == gs[a] = "ret" /\ UNCHANGED vars
\* position i reports the outcome of child i, and what it wrote is visible
Res(k, exc, v, d) == /\ \E a \in Parent(k) : gs[a] = "ret"
                     /\ exc = def[k].thr /\ v = k /\ d = k + 1 /\ UNCHANGED vars
DropInv(a) == gs[a] = "ret" /\ gs' = [gs EXCEPT ![a] = "dropping"] /\ UNCHANGED <<def, kids, ts>>
ParamOut(k) == /\ ts[k] = "out" /\ \E a \in Parent(k) : gs[a] = "dropping"
               /\ ts' = [ts EXCEPT ![k] = "gone"] /\ UNCHANGED <<def, kids, gs>>
DropRet(a) == /\ gs[a] = "dropping" /\ \A k \in SetOf(kids[a]) : ts[k] = "gone"
              /\ gs' = [gs EXCEPT ![a] = "dropped"] /\ UNCHANGED <<def, kids, ts>>
\* whoever still waits waits for a child that was started and has not finished
Quiesce == /\ \A a \in Groups0 : gs[a] = "await" => /\ \E k \in SetOf(kids[a]) : ~Finished(k)
                                                   /\ \A k \in SetOf(kids[a]) : ts[k] # "none"
           /\ \A a \in Groups0 : gs[a] \in {"none", "await", "dropped"}
           /\ UNCHANGED vars
End == \A a \in Groups0 : gs[a] \in {"none", "dropped"}
\* ---- properties
NoEarlyReturn == \A a \in Groups0 : gs[a] \in {"ret", "dropping", "dropped"} => \A k \in SetOf(kids[a]) : Finished(k)
LazyWaits == \A k \in Kids0 : def[k].lazy /\ ts[k] # "none" => \E a \in Parent(k) : gs[a] # "none"
=============================================================================
