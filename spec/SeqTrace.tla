------------------------------ MODULE SeqTrace -----------------------------
EXTENDS Seq, Trie
TInit == NodeInit /\ Init0("b", 1)
Ev(e) ==
  \/ e.e = "Cfg" /\ kind' = e.kind /\ n' = e.n /\ UNCHANGED <<next, st, arg, own, pubI, pubR, consI, consR>>
  \/ e.e = "ClaimInv" /\ ClaimInv(e.p, e.n)
  \/ e.e = "ClaimRet" /\ (ClaimRetM(e.p, e.lo, e.hi) \/ ClaimRetS(e.p, e.lo, e.hi))
  \/ e.e = "PubInv" /\ PubInv(e.p, e.lo, e.hi)
  \/ e.e = "PubRet" /\ PubRet(e.p)
  \/ e.e = "WaitInv" /\ WaitInv(e.p, e.t)
  \/ e.e = "WaitRet" /\ e.ok = 1 /\ WaitRet(e.p, e.r)
  \/ e.e = "LastInv" /\ LastInv(e.p)
  \/ e.e = "LastRet" /\ e.ok = 1 /\ LastRet(e.p, e.r)
  \/ e.e = "ConsInv" /\ ConsInv(e.c)
  \/ e.e = "ConsRet" /\ ConsRet(e.c)
  \/ e.e = "AvailInv" /\ AvailInv(e.p)
  \/ e.e = "AvailRet" /\ AvailRet(e.p, e.v)
  \/ e.e = "Quiesce" /\ Quiesce
  \/ e.e = "End" /\ UNCHANGED vars
TNext == \/ \E k \in Kids : Ev(Nodes[k].ev) /\ node' = k
         \/ \E p \in Procs : Alloc(p) /\ UNCHANGED node
TSpec == TInit /\ [][TNext]_<<vars, node>>
============================================================================
