----------------------------- MODULE SyncWaitMC -----------------------------
EXTENDS SyncWait, TLC
VARIABLE kind   \* kind[k]: FALSE sync_wait, TRUE make_blocking and get
mvars == <<vars, kind>>
Defs == [Ops -> [eager : {FALSE}, body : BOOLEAN, thr : BOOLEAN, g : {<<>>, <<0>>, <<0, 1>>}]]
Init == (\E d \in Defs : Init0(d)) /\ kind \in [Ops -> BOOLEAN]
Lib(k) == In(k) \/ Out(k) \/ (kind[k] /\ Made(k)) \/ ((blk[k] = "get" \/ ~kind[k]) /\ Ret(k, def[k].thr, k, k + 1))
Client(k) == (blk[k] = "none" /\ Inv(k)) \/ GetInv(k) \/ (kind[k] /\ Drop(k))
Next == /\ \/ \E k \in Ops : Lib(k) \/ Client(k)
           \/ \E j \in Gates : j \notin open /\ Open(j)
        /\ UNCHANGED kind
Spec == /\ Init /\ [][Next]_mvars
        /\ \A k \in Ops : WF_mvars(Lib(k) /\ UNCHANGED kind)
        /\ \A j \in Gates : WF_mvars(j \notin open /\ Open(j) /\ UNCHANGED kind)
\* a wait ends; starting one ends without anybody's help
WaitEnds == \A k \in Ops : (blk[k] = "get" \/ (blk[k] = "start" /\ ~kind[k])) ~> blk[k] \in {"done", "gone"}
StartEnds == \A k \in Ops : (blk[k] = "start") ~> blk[k] # "start"
=============================================================================
