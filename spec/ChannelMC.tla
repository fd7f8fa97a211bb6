----------------------------- MODULE ChannelMC -----------------------------
EXTENDS Channel, TLC
CONSTANTS Senders, PerSender, Sizes
VARIABLES sent, busy, recv   \* items begun by sender, senders with an operation under way, items received
mvars == <<vars, sent, busy, recv>>
Init == /\ \E K \in {"s", "m"}, S \in Sizes : Init0(K, S)
        /\ sent = [p \in Senders |-> 0] /\ busy = [p \in Senders |-> 0] /\ recv = <<>>
Sends == IF kind = "s" THEN {1} ELSE Senders
V(p, k) == 10 * p + k
Closing(p) == -p
Start(p) == /\ busy[p] = 0 /\ sent[p] < PerSender
            /\ \/ \E a \in BOOLEAN : PushInv(V(p, sent[p]), a) /\ busy' = [busy EXCEPT ![p] = V(p, sent[p])]
               \/ PushInv(Closing(p), TRUE) /\ busy' = [busy EXCEPT ![p] = Closing(p)]
            /\ sent' = [sent EXCEPT ![p] = @ + 1] /\ UNCHANGED recv
Advance(p) == /\ busy[p] # 0
              /\ \/ \E w \in want : w.v = busy[p] /\ Claim(w) /\ UNCHANGED busy
                 \/ Has(busy[p]) /\ ~items[Idx(busy[p])].auto /\ (PushGot(busy[p]) \/ PubInv(busy[p])) /\ UNCHANGED busy
                 \/ Has(busy[p]) /\ (PubRet(busy[p]) \/ (items[Idx(busy[p])].auto /\ AutoRet(busy[p]))) /\ busy' = [busy EXCEPT ![p] = 0]
              /\ UNCHANGED <<sent, recv>>
Receive == \/ RecvInv /\ UNCHANGED recv
           \/ head <= Len(items) /\ Pop(items[head].v) /\ recv' = Append(recv, items[head].v)
           \/ head <= Len(items) /\ Front(items[head].v) /\ UNCHANGED recv
           \/ (Closed \/ RelInv \/ RelRet) /\ UNCHANGED recv
ReceiveU == Receive /\ UNCHANGED <<sent, busy>>
Next == (\E p \in Sends : Start(p) \/ Advance(p)) \/ ReceiveU
Spec == Init /\ [][Next]_mvars /\ \A p \in Senders : WF_mvars(p \in Sends /\ Advance(p))
        /\ WF_mvars(RecvInv /\ UNCHANGED <<sent, busy, recv>>) /\ SF_mvars(ReceiveU /\ rs' = "held") /\ WF_mvars(RelInv /\ UNCHANGED <<sent, busy, recv>>) /\ WF_mvars(RelRet /\ UNCHANGED <<sent, busy, recv>>)
\* exactly once, in the order of the channel, per sender in program order
RecvPrefix == \A i \in 1..Len(recv) : recv[i] = items[i].v
PerSenderOrder == \A i, j \in 1..Len(recv) : (i < j /\ recv[i] \div 10 = recv[j] \div 10) => recv[i] < recv[j]
NoneAfterClose == \A i \in 1..Len(recv) : \A j \in 1..i : items[j].v >= 0
\* an item (close) that is published is received unless something was closed before it
PubdAt(i) == i > 0 /\ items[i].s = "pubR"
Received == \A p \in Senders, k \in 0..PerSender - 1 :
    [](PubdAt(Idx(V(p, k))) =>
       <>((\E i \in 1..Len(recv) : recv[i] = V(p, k)) \/ \E i \in 1..Idx(V(p, k)) : items[i].v < 0))
=============================================================================
