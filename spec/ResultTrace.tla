---------------------------- MODULE ResultTrace -----------------------------
EXTENDS Result, Trie
TInit == NodeInit /\ Init0([mt |-> TRUE, me |-> TRUE, dv |-> TRUE, xe |-> TRUE])
Ev(e) ==
  \/ e.e = "Cfg" /\ ty' = [mt |-> e.mt, me |-> e.me, dv |-> e.dv, xe |-> e.xe] /\ UNCHANGED r
  \/ e.e = "Def" /\ Def(e.s)
  \/ e.e = "Set" /\ Set(e.s, e.ok, e.p, e.src)
  \/ e.e = "Copy" /\ Copy(e.s, e.t)
  \/ e.e = "Move" /\ Move(e.s, e.t)
  \/ e.e = "Drop" /\ Drop(e.s)
  \/ e.e = "Self" /\ Self(e.s)
  \/ e.e = "Flip" /\ Flip(e.s)
  \/ e.e = "Threw" /\ Threw(e.p)
  \/ e.e = "Await" /\ Await(e.s, e.t)
  \/ e.e = "Wrap" /\ Wrap(e.s, e.ok, e.p)
  \/ e.e = "Query" /\ Query(e.s, e.hv, e.he, e.bo, e.chv, e.che)
  \/ e.e = "Value" /\ Value(e.s, e.o, e.p)
  \/ e.e = "Error" /\ Error(e.s, e.o, e.p)
  \/ e.e = "Write" /\ Write(e.s, e.o, e.p)
  \/ e.e = "WriteErr" /\ WriteErr(e.s, e.o, e.p)
  \/ e.e = "ValueOr" /\ ValueOr(e.s, e.p, e.x, e.alt)
  \/ e.e = "ErrorOr" /\ ErrorOr(e.s, e.p, e.x, e.alt)
  \/ e.e = "Eq" /\ Eq(e.s, e.ok, e.p, e.ne, e.x)
  \/ e.e = "State" /\ State(e.r)
  \/ e.e = "Wrapped" /\ e.ok = e.wok /\ e.p = e.wp /\ Same
  \/ e.e = "Referent" /\ e.v = e.p /\ Same
  \/ e.e = "Early" /\ ~e.x /\ Same
  \/ e.e = "End" /\ Same
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
=============================================================================
