--------------------------- MODULE WhenAllTrace ----------------------------
EXTENDS WhenAll, Trie
NoDef == [lazy |-> TRUE, thr |-> FALSE]
TInit == NodeInit /\ Init0([k \in Kids0 |-> NoDef], [a \in Groups0 |-> <<>>])
Ev(e) ==
  \/ e.e = "Cfg" /\ def' = [k \in Kids0 |-> IF k < Len(e.defs) THEN e.defs[k + 1] ELSE NoDef]
                 /\ kids' = [a \in Groups0 |-> IF a < Len(e.groups) THEN e.groups[a + 1] ELSE <<>>] /\ UNCHANGED <<ts, gs>>
  \/ e.e = "AllInv" /\ AllInv(e.k)
  \/ e.e = "AllRet" /\ AllRet(e.k)
  \/ e.e = "AllAgain" /\ AllAgain(e.k)
  \/ e.e = "ChildIn" /\ ChildIn(e.k)
  \/ e.e = "ChildOut" /\ ChildOut(e.k)
  \/ e.e = "Res" /\ Res(e.k, e.exc, e.v, e.d)
  \/ e.e = "DropInv" /\ DropInv(e.k)
  \/ e.e = "ParamOut" /\ ParamOut(e.k)
  \/ e.e = "DropRet" /\ DropRet(e.k)
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ End /\ UNCHANGED vars
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
