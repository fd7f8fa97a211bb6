------------------------------- MODULE SeqMC -------------------------------
(* Producers 1.. claim (after publishing what they own) and publish, out of order; *)
(* process 0 consumes in order.                                             *)
EXTENDS Seq, TLC
CONSTANTS Sizes, Total, MaxClaim
VARIABLES got   \* process 0 has received up to here
mvars == <<vars, got>>
Kinds == {"s", "m"}
Init == (\E K \in Kinds, S \in Sizes : Init0(K, S)) /\ got = -1
Prods == IF kind = "s" THEN {1} ELSE Procs \ {0}
ClientP == \E p \in Prods : \/ \E c \in 1..MaxClaim : next < Total /\ own[p] = {} /\ ClaimInv(p, c)
                            \/ AvailInv(p) /\ kind = "m" /\ own[p] = {}
ClientPubOf(p) == \E x \in own[p] : (kind = "s" => x = Prefix(pubI) + 1) /\ PubInv(p, x, x)
ClientPub == \E p \in Prods : ClientPubOf(p)
ClientC == \/ WaitInv(0, got + 1) /\ got < next - 1 /\ got' = got
           \/ consI = consR /\ consI < got /\ ConsInv(got) /\ got' = got
Sys(p) == \/ Alloc(p) \/ PubRet(p)
          \/ \E lo \in 0..Total + MaxClaim, k \in 0..MaxClaim - 1 : ClaimRetM(p, lo, lo + k) \/ ClaimRetS(p, lo, lo + k)
          \/ \E v \in BOOLEAN : AvailRet(p, v)
SysC == \/ \E r \in 0..Total + MaxClaim : WaitRet(0, r) /\ got' = r
        \/ consI # consR /\ ConsRet(consI) /\ got' = got
Next == ((ClientP \/ ClientPub \/ \E p \in Prods : Sys(p)) /\ UNCHANGED got) \/ ClientC \/ SysC
\* everybody who was granted slots publishes them, and the consumer keeps consuming
Fair == /\ \A p \in Procs : WF_mvars(p \in Prods /\ ClientPubOf(p) /\ UNCHANGED got) /\ WF_mvars(ClientC) /\ WF_mvars(SysC)
        /\ \A p \in Procs : SF_mvars(p \in Prods /\ Sys(p) /\ UNCHANGED got)
Spec == Init /\ [][Next]_mvars /\ Fair
ClaimGranted == \A p \in Procs : st[p] \in {"claim", "alloc"} ~> st[p] = "idle"
WaitResumed == st[0] = "wait" ~> st[0] # "wait"
\* the consumer reads only published slots, and never one that was handed back
ReadOk == got <= Prefix(pubI)
NoOverwrite == \A p \in Procs : \A x \in own[p] : x - n <= consI
=============================================================================
