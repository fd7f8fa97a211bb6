-------------------------------- MODULE Seq --------------------------------
(* Sequence barriers and sequencers over a ring buffer, at the interface.   *)
(* Slots are numbered from 0 (offset from the first sequence number), -1    *)
(* means "nothing yet"; wrap-around of the counter is the driver's business.*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs
VARIABLES kind,   \* "b" barrier, "s" single producer, "m" multi producer
          n,      \* buffer size
          next,   \* first slot not yet allocated to a claim
          st,     \* st[p]: idle, claim, alloc, pub, wait, avail, last
          arg,    \* arguments / bounds of p's operation
          own,    \* own[p]: slots p was granted and has not begun to publish
          pubI, pubR,   \* slots whose publication has begun / returned
          consI, consR  \* slots up to this were (being) handed back / returned
vars == <<kind, n, next, st, arg, own, pubI, pubR, consI, consR>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
NoArg == [a |-> 0, b |-> 0]
Init0(K, S) == /\ kind = K /\ n = S /\ next = 0 /\ st = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> NoArg]
               /\ own = [p \in Procs |-> {}] /\ pubI = {} /\ pubR = {} /\ consI = -1 /\ consR = -1
Go(p, from, to, a, b) == st[p] = from /\ st' = [st EXCEPT ![p] = to] /\ arg' = [arg EXCEPT ![p] = [a |-> a, b |-> b]]
\* the longest published prefix
RECURSIVE Pre(_, _)
Pre(S, i) == IF i \in S THEN Pre(S, i + 1) ELSE i - 1
Prefix(S) == Pre(S, 0)

\* ---- claims
ClaimInv(p, c) == Go(p, "idle", "claim", c, consR + n - next + 1) /\ UNCHANGED <<kind, n, next, own, pubI, pubR, consI, consR>>
\* with several producers a claim takes its place in line, then waits for room
Alloc(p) == /\ kind = "m" /\ Go(p, "claim", "alloc", next, next + Min(arg[p].a, n) - 1)
            /\ next' = next + Min(arg[p].a, n)
            /\ UNCHANGED <<kind, n, own, pubI, pubR, consI, consR>>
Fits(hi) == hi <= consI + n
ClaimRetM(p, lo, hi) == /\ kind = "m" /\ arg[p] = [a |-> lo, b |-> hi] /\ Fits(hi)
                        /\ Go(p, "alloc", "idle", 0, 0) /\ own' = [own EXCEPT ![p] = @ \cup (lo..hi)]
                        /\ UNCHANGED <<kind, n, next, pubI, pubR, consI, consR>>
\* a single producer takes what there is room for, up to the requested number
ClaimRetS(p, lo, hi) == /\ kind = "s" /\ lo = next /\ hi >= lo /\ hi - lo + 1 <= arg[p].a /\ Fits(hi)
                        /\ hi - lo + 1 >= Min(arg[p].a, arg[p].b)
                        /\ Go(p, "claim", "idle", 0, 0) /\ own' = [own EXCEPT ![p] = @ \cup (lo..hi)]
                        /\ next' = hi + 1
                        /\ UNCHANGED <<kind, n, pubI, pubR, consI, consR>>
\* ---- publication
PubInv(p, lo, hi) == /\ Go(p, "idle", "pub", lo, hi) /\ pubI' = pubI \cup (lo..hi)
                     /\ IF kind = "b" THEN own' = own ELSE lo..hi \subseteq own[p] /\ own' = [own EXCEPT ![p] = @ \ (lo..hi)]
                     /\ UNCHANGED <<kind, n, next, pubR, consI, consR>>
PubRet(p) == /\ Go(p, "pub", "idle", 0, 0) /\ pubR' = pubR \cup (arg[p].a..arg[p].b)
             /\ UNCHANGED <<kind, n, next, own, pubI, consI, consR>>
\* ---- waiting for a slot to be published
WaitInv(p, t) == Go(p, "idle", "wait", t, 0) /\ UNCHANGED <<kind, n, next, own, pubI, pubR, consI, consR>>
WaitRet(p, r) == /\ r >= arg[p].a /\ r <= Prefix(pubI)
                 /\ Go(p, "wait", "idle", 0, 0) /\ UNCHANGED <<kind, n, next, own, pubI, pubR, consI, consR>>
LastInv(p) == Go(p, "idle", "last", Prefix(pubR), 0) /\ UNCHANGED <<kind, n, next, own, pubI, pubR, consI, consR>>
LastRet(p, r) == /\ r >= arg[p].a /\ r <= Prefix(pubI)
                 /\ Go(p, "last", "idle", 0, 0) /\ UNCHANGED <<kind, n, next, own, pubI, pubR, consI, consR>>
\* ---- handing slots back
ConsInv(c) == c >= consI /\ consI' = c /\ UNCHANGED <<kind, n, next, st, arg, own, pubI, pubR, consR>>
ConsRet(c) == consI >= c /\ consR' = Max(consR, c) /\ UNCHANGED <<kind, n, next, st, arg, own, pubI, pubR, consI>>
\* ---- is there room for a claim?  (bounds taken at both ends of the call)
AvailInv(p) == Go(p, "idle", "avail", next, consR) /\ UNCHANGED <<kind, n, next, own, pubI, pubR, consI, consR>>
AvailRet(p, v) == /\ IF v THEN arg[p].a <= consI + n ELSE next > arg[p].b + n
                  /\ Go(p, "avail", "idle", 0, 0) /\ UNCHANGED <<kind, n, next, own, pubI, pubR, consI, consR>>
\* ---- nothing can happen any more: whoever still waits has a reason to
Quiesce == /\ \A p \in Procs : /\ st[p] \in {"idle", "claim", "alloc", "wait"}
                               /\ st[p] = "alloc" => arg[p].b > consR + n
                               /\ st[p] = "claim" => kind = "s" /\ next > consR + n
                               /\ st[p] = "wait" => arg[p].a > Prefix(pubR)
           /\ consI = consR /\ pubI = pubR
           /\ UNCHANGED vars
\* ---- properties
Disjoint == \A p, q \in Procs : p # q => own[p] \cap own[q] = {}
NotReclaimed == \A p \in Procs : own[p] \cap pubI = {}
Capacity == kind # "b" => \A p \in Procs : \A x \in own[p] : x <= consI + n /\ x < next
PubClaimed == kind # "b" => \A x \in pubI : x < next
=============================================================================
