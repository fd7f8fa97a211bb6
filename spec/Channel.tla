------------------------------ MODULE Channel ------------------------------
(* A bounded channel with one receiver and one or several senders.          *)
(* Items carry unique values; a close is an item with a negative value.     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind, n,
          want,   \* sends that have not taken their place yet: set of [v, auto]
          items,  \* the order of the channel: items[i] = [v, auto, s], s in claimed, got, pubI, pubR
          head,   \* the receiver is at items[head]
          rs,     \* receiver: idle, wait, held, rel
          relI, relR   \* number of slots handed back (begun, returned)
vars == <<kind, n, want, items, head, rs, relI, relR>>
Init0(K, S) == kind = K /\ n = S /\ want = {} /\ items = <<>> /\ head = 1 /\ rs = "idle" /\ relI = 0 /\ relR = 0
Has(v) == \E i \in 1..Len(items) : items[i].v = v
Idx(v) == IF Has(v) THEN CHOOSE i \in 1..Len(items) : items[i].v = v ELSE 0
SetSt(v, f, t) == Has(v) /\ items[Idx(v)].s \in f /\ items' = [items EXCEPT ![Idx(v)].s = t]
Fits(i) == i <= relI + n

PushInv(v, auto) == ~Has(v) /\ want' = want \cup {[v |-> v, auto |-> auto]} /\ UNCHANGED <<kind, n, items, head, rs, relI, relR>>
\* a send takes its place in the order (several senders: before there is room; one sender: when there is)
Claim(w) == /\ w \in want /\ want' = want \ {w}
            /\ items' = Append(items, [v |-> w.v, auto |-> w.auto, s |-> "claimed"])
            /\ kind = "s" => Fits(Len(items) + 1)
            /\ UNCHANGED <<kind, n, head, rs, relI, relR>>
\* the sender continues: there is room for its item
PushGot(v) == Has(v) /\ Fits(Idx(v)) /\ SetSt(v, {"claimed"}, "got") /\ UNCHANGED <<kind, n, want, head, rs, relI, relR>>
PubInv(v) == SetSt(v, {"got"}, "pubI") /\ UNCHANGED <<kind, n, want, head, rs, relI, relR>>
PubRet(v) == SetSt(v, {"pubI"}, "pubR") /\ UNCHANGED <<kind, n, want, head, rs, relI, relR>>
\* push of a value, and close: room and publication in one call
AutoRet(v) == Has(v) /\ Fits(Idx(v)) /\ SetSt(v, {"claimed"}, "pubR") /\ UNCHANGED <<kind, n, want, head, rs, relI, relR>>
Visible(i) == i <= Len(items) /\ (items[i].s \in {"pubI", "pubR"} \/ (items[i].auto /\ Fits(i)))

RecvInv == rs = "idle" /\ rs' = "wait" /\ UNCHANGED <<kind, n, want, items, head, relI, relR>>
Front(v) == rs = "wait" /\ Visible(head) /\ items[head].v = v /\ v >= 0 /\ rs' = "idle" /\ UNCHANGED <<kind, n, want, items, head, relI, relR>>
Pop(v) == rs = "wait" /\ Visible(head) /\ items[head].v = v /\ v >= 0 /\ rs' = "held" /\ UNCHANGED <<kind, n, want, items, head, relI, relR>>
PopBlind == rs = "wait" /\ Visible(head) /\ items[head].v >= 0 /\ rs' = "held" /\ UNCHANGED <<kind, n, want, items, head, relI, relR>>
Closed == rs = "wait" /\ Visible(head) /\ items[head].v < 0 /\ rs' = "idle" /\ UNCHANGED <<kind, n, want, items, head, relI, relR>>
RelInv == rs = "held" /\ rs' = "rel" /\ relI' = relI + 1 /\ head' = head + 1 /\ UNCHANGED <<kind, n, want, items, relR>>
RelRet == rs = "rel" /\ rs' = "idle" /\ relR' = relR + 1 /\ UNCHANGED <<kind, n, want, items, head, relI>>

\* nothing can happen any more: whoever still waits has a reason to
Quiesce == /\ rs \in {"idle", "wait"}
           /\ rs = "wait" => (IF head > Len(items) THEN TRUE ELSE items[head].s # "pubR")
           /\ want # {} => kind = "s" /\ Len(items) >= relR + n
           /\ \A i \in 1..Len(items) : /\ items[i].s # "pubI"
                                       /\ items[i].s = "claimed" => i > relR + n
           /\ UNCHANGED vars
\* ---- properties
Capacity == \A i \in 1..Len(items) : items[i].s # "claimed" => i <= relI + n
Once == \A i, j \in 1..Len(items) : i # j => items[i].v # items[j].v
HeadOk == head <= Len(items) + 1 /\ \A i \in 1..head - 1 : Visible(i)
=============================================================================
