----------------------------- MODULE CoroTrace ------------------------------
EXTENDS Coro, Trie
TInit == NodeInit /\ InitC([void |-> TRUE, tr |-> "0", ini |-> "s", fin |-> "s", unh |-> "s", st |-> <<>>])
Steps == {"PromiseCtor", "GetRet", "Initial", "Ctor", "CtorThrow", "Dtor", "Transform", "CoAwait", "Ready", "Resume", "Got", "GotErr", "Fn", "Yield",
          "RetVoid", "RetVal", "Throwing", "Unhandled", "Final", "PromiseDtor", "ParamDtor"}
Ev(e) ==
  \/ e.e = "Cfg" /\ st = "none" /\ cfg' = [void |-> e.void, tr |-> e.tr, ini |-> e.ini, fin |-> e.fin, unh |-> e.unh, st |-> e.st]
       /\ UNCHANGED <<todo, live, at, st>>
  \/ e.e = "Create" /\ Create
  \/ e.e = "Go" /\ Go
  \/ e.e = "Destroy" /\ Destroy
  \/ e.e \in Steps /\ Do1(e.e, e.i)
  \/ e.e = "Suspend" /\ Suspend(e.i, e.own, e.done, e.tr)
  \/ e.e = "Partner" /\ Partner
  \/ e.e = "Back" /\ e.gone /\ Back(e.exc, TRUE, FALSE)
  \/ e.e = "Back" /\ ~e.gone /\ Back(e.exc, FALSE, e.done) /\ (e.sdone = e.done \/ e.exc) /\ e.tdone = e.done
  \/ e.e = "Noop" /\ ~e.done /\ UNCHANGED vars   \* resuming or destroying the noop coroutine does nothing, it is never done
  \/ e.e = "Same" /\ e.ok /\ UNCHANGED vars      \* conversions of handles preserve the coroutine they refer to
  \/ e.e = "End" /\ at = "own" /\ st = "gone" /\ UNCHANGED vars
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
=============================================================================
