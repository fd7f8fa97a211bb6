------------------------------ MODULE ResultMC ------------------------------
EXTENDS Result, TLC
CONSTANTS Pay
VARIABLE last   \* what the last observation said
mvars == <<vars, last>>
Tys == [mt : BOOLEAN, me : BOOLEAN, dv : BOOLEAN, xe : BOOLEAN]
Init == (\E t \in Tys : Init0(t)) /\ last = None
Act == \E s \in Slots : \/ Def(s) \/ Drop(s) \/ Flip(s)
                        \/ \E p \in Pay, ok \in BOOLEAN : Set(s, ok, p, p) \/ Wrap(s, ok, p)
                        \/ \E t \in Slots : Copy(s, t) \/ Move(s, t) \/ Await(s, t)
                        \/ \E p \in Pay : (r[s].k # "none" /\ (Write(s, r[s].k, p) \/ WriteErr(s, "err", p)))
Obs == \E s \in Slots, p \in Pay \cup {-1, 0} :
          \/ \E o \in {"val", "err"} : r[s].k # "none" /\ Value(s, o, p) /\ last' = [k |-> o, p |-> p]
          \/ r[s].k # "none" /\ Error(s, "err", p) /\ last' = [k |-> "err", p |-> p]
Next == (Act /\ last' = None) \/ Obs
Spec == Init /\ [][Next]_mvars
\* what an access reports is what some slot holds; no step changes the kind of a slot it does not set
Faithful == last # None => \E s \in Slots : r[s] = last
KindKept == [][\A s \in Slots : r[s].k # "none" /\ r'[s].k # r[s].k =>
                \A t \in Slots : t # s => r'[t].k = r[t].k]_mvars
=============================================================================
