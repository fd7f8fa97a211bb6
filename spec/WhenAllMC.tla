----------------------------- MODULE WhenAllMC -----------------------------
EXTENDS WhenAll, TLC
\* child 0 waits for group 1 in its body (nesting) when nest holds
VARIABLES nest, gate
mvars == <<vars, nest, gate>>
Shapes == {<<(<<0, 1>>), (<<2>>)>>, <<(<<0, 1, 2>>), (<<>>)>>, <<(<<0>>), (<<1, 2>>)>>}
Init == /\ \E D \in {[k \in Kids0 |-> [lazy |-> l[k], thr |-> k = 1]] : l \in [Kids0 -> BOOLEAN]}, s \in Shapes : Init0(D, [a \in Groups0 |-> s[a + 1]])
        /\ nest \in BOOLEAN /\ gate = [k \in Kids0 |-> FALSE]
Un == UNCHANGED <<nest, gate>>
Client(a) == \/ AllInv(a) /\ (a = 1 /\ nest => ts[0] = "body")
             \/ DropInv(a)
Sys == \/ \E k \in Kids0 : (ChildIn(k) /\ (def[k].lazy \/ \E a \in Parent(k) : TRUE))
       \/ \E k \in Kids0 : gate[k] /\ (nest /\ k = 0 => gs[1] = "dropped") /\ ChildOut(k)
       \/ \E a \in Groups0 : AllRet(a) \/ DropRet(a) \/ DropInv(a)
       \/ \E k \in Kids0 : ParamOut(k)
Open(k) == ~gate[k] /\ gate' = [gate EXCEPT ![k] = TRUE] /\ UNCHANGED <<vars, nest>>
Next == ((\E a \in Groups0 : Client(a)) /\ Un) \/ (Sys /\ Un) \/ \E k \in Kids0 : Open(k)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Sys /\ Un) /\ \A k \in Kids0 : WF_mvars(Open(k))
        /\ WF_mvars(nest /\ ts[0] = "body" /\ AllInv(1) /\ Un)
AwaitCompletes == \A a \in Groups0 : gs[a] = "await" ~> gs[a] # "await"
OnceOnly == [][\A k \in Kids0 : ts[k] # "none" => ts'[k] # "none" /\ (ts[k] = "out" => ts'[k] # "body")]_vars
============================================================================
