--------------------------- MODULE CallStackTrace ----------------------------
EXTENDS CallStack, Trie
TInit == NodeInit /\ Init
Ev(e) ==
  \/ e.e = "Await" /\ Await(e.n, e.p, e.loc)
  \/ e.e = "Ask" /\ Ask(e.n, e.loc, e.stack, e.str)
  \/ e.e = "Done" /\ Done(e.n)
  \/ e.e = "End" /\ End(e.fin)
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
=============================================================================
