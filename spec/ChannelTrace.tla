---------------------------- MODULE ChannelTrace ---------------------------
EXTENDS Channel, Trie
TInit == NodeInit /\ Init0("m", 1)
Ev(e) ==
  \/ e.e = "Cfg" /\ e.txcopy = (e.kind = "m") /\ ~e.rxcopy /\ e.move /\ kind' = e.kind /\ n' = e.n /\ UNCHANGED <<want, items, head, rs, relI, relR>>
  \/ e.e = "PushInv" /\ PushInv(e.v, e.auto)
  \/ e.e = "PushGot" /\ PushGot(e.v)
  \/ e.e = "PubInv" /\ PubInv(e.v)
  \/ e.e = "PubRet" /\ PubRet(e.v)
  \/ e.e = "AutoRet" /\ AutoRet(e.v)
  \/ e.e = "RecvInv" /\ RecvInv
  \/ e.e = "Front" /\ Front(e.v)
  \/ e.e = "Pop" /\ Pop(e.v)
  \/ e.e = "PopBlind" /\ PopBlind
  \/ e.e = "Closed" /\ Closed
  \/ e.e = "RelInv" /\ RelInv
  \/ e.e = "RelRet" /\ RelRet
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ UNCHANGED vars
TNext == \/ \E k \in Kids : Ev(Nodes[k].ev) /\ node' = k
         \/ \E w \in want : Claim(w) /\ UNCHANGED node
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
