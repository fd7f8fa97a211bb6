---------------------------- MODULE TimeoutTrace ----------------------------
EXTENDS Timeout, Trie
TInit == NodeInit /\ Init0
Ev(e) ==
  \/ e.e = "MakeInv" /\ MakeInv(e.k, e.d, e.outer)
  \/ e.e = "MakeRet" /\ MakeRet(e.k)
  \/ e.e = "ReqInv" /\ ReqInv(e.k)
  \/ e.e = "ReqRet" /\ ReqRet(e.k)
  \/ e.e = "OuterInv" /\ OuterInv(e.k)
  \/ e.e = "OuterRet" /\ OuterRet(e.k)
  \/ e.e = "Stopped" /\ Stopped(e.k)
  \/ e.e = "Ask" /\ Ask(e.k, e.v)
  \/ e.e = "AwaitInv" /\ AwaitInv(e.k)
  \/ e.e = "AwaitRet" /\ AwaitRet(e.k)
  \/ e.e = "TakeInv" /\ TakeInv(e.k, e.exc, e.hand)
  \/ e.e = "TakeStarted" /\ op[e.k] # "started" /\ UNCHANGED vars
  \/ e.e = "OpIn" /\ OpIn(e.k)
  \/ e.e = "OpOut" /\ OpOut(e.k)
  \/ e.e = "OpWait" /\ OpWait(e.k)
  \/ e.e = "OpTok" /\ OpTok(e.k)
  \/ e.e = "TrigStop" /\ TrigStop(e.k)
  \/ e.e = "TrigIn" /\ TrigIn(e.k)
  \/ e.e = "TrigOut" /\ TrigOut(e.k)
  \/ e.e = "TakeRet" /\ TakeRet(e.k, e.x, e.v, e.d)
  \/ e.e = "Tick" /\ Tick(e.now - 1000, e.idle)
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ UNCHANGED vars
TNext == \E n \in Kids : Ev(Nodes[n].ev) /\ node' = n
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
