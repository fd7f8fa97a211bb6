----------------------------- MODULE BulkTrace -----------------------------
(* Are the recorded long histories of the real components behaviours of Bulk? *)
EXTENDS Bulk, Trie
TInit == NodeInit /\ Init0
Ev(e) ==
  \/ e.e \in {"Cfg", "Tick"} /\ UNCHANGED vars
  \/ e.e = "Made" /\ Made(e.n, e.f, e.hi)
  \/ e.e = "Drop" /\ Drop(e.n, e.f)
  \/ e.e = "Open" /\ Open
  \/ e.e = "Close" /\ Close
  \/ e.e = "Done" /\ Done(e.n, e.f, e.bad)
  \/ e.e = "Count" /\ Count(e.v, e.hi)
  \/ e.e = "All" /\ All
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
