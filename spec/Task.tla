-------------------------------- MODULE Task -------------------------------
(* Lazy and eager tasks, at the interface: bodies, handles, awaiting.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tasks
VARIABLES def,   \* def[k]: [lazy, body (FALSE: made from task fwd by make_task/make_eager), thr, fwd (task whose outcome it forwards, or -1)]
          ts,    \* ts[k]: none, creating, idle (lazy, not started), body, out, gone
          hs,    \* hs[k]: none, held, await, taken (awaited, still owned), dropping, dropped, owned (moved into task own[k])
          own    \* the maker that owns k, or -1
vars == <<def, ts, hs, own>>
NoDef == [lazy |-> TRUE, body |-> TRUE, thr |-> FALSE, fwd |-> -1]
Init0(D) == /\ def = D /\ ts = [k \in Tasks |-> "none"] /\ hs = [k \in Tasks |-> "none"] /\ own = [k \in Tasks |-> -1]

RECURSIVE Outcome(_)
Outcome(k) == IF def[k].fwd >= 0 THEN Outcome(def[k].fwd) ELSE [exc |-> def[k].thr, v |-> k]
\* the body of k, or whatever its outcome is forwarded from, has ended
RECURSIVE Finished(_)
Finished(k) == IF def[k].body THEN ts[k] \in {"out", "gone"} ELSE Finished(def[k].fwd)
\* somebody asked for it to run
RECURSIVE Started(_)
Started(k) == IF ~def[k].lazy THEN ts[k] # "none"
              ELSE hs[k] \in {"await", "taken"} \/ (own[k] >= 0 /\ Started(own[k]))

CreateInv(k) == /\ ts[k] = "none"
                /\ ts' = [ts EXCEPT ![k] = "creating"]
                /\ IF def[k].body THEN UNCHANGED <<hs, own>>
                   ELSE hs' = [hs EXCEPT ![def[k].fwd] = "owned"] /\ own' = [own EXCEPT ![def[k].fwd] = k]
                /\ UNCHANGED def
\* creating a lazy task runs nothing; an eager task starts at once
CreateRet(k) == /\ hs[k] = "none" /\ hs' = [hs EXCEPT ![k] = "held"]
                /\ IF def[k].lazy \/ ~def[k].body THEN ts[k] = "creating" /\ ts' = [ts EXCEPT ![k] = "idle"]
                   ELSE ts[k] \in {"body", "out"} /\ UNCHANGED ts
                /\ UNCHANGED <<def, own>>
BodyIn(k) == /\ def[k].body
             /\ IF def[k].lazy THEN ts[k] = "idle" /\ Started(k) ELSE ts[k] = "creating"
             /\ ts' = [ts EXCEPT ![k] = "body"] /\ UNCHANGED <<def, hs, own>>
\* the body ends and its locals are destroyed; a forwarded task has ended before
BodyOut(k) == /\ ts[k] = "body" /\ (def[k].fwd >= 0 => Finished(def[k].fwd))
              /\ ts' = [ts EXCEPT ![k] = "out"] /\ UNCHANGED <<def, hs, own>>
AwaitInv(k) == hs[k] \in {"held", "taken"} /\ hs' = [hs EXCEPT ![k] = "await"] /\ UNCHANGED <<def, ts, own>>
WhenReady(k) == hs[k] = "await" /\ Finished(k) /\ UNCHANGED vars
AwaitDone(k, exc, v, d) == /\ hs[k] = "await" /\ Finished(k)
                           /\ Outcome(k) = [exc |-> exc, v |-> v] /\ d = v + 1
                           /\ hs' = [hs EXCEPT ![k] = "taken"] /\ UNCHANGED <<def, ts, own>>
\* ready exactly when finished (TRUE may lag behind, FALSE may not come after the result was taken)
Ready(k, v) == (v => Finished(k)) /\ (hs[k] = "taken" => v) /\ UNCHANGED vars
\* the body of j ends by co_awaiting k and returning what that gave
FwdBy(k, j) == def[j].fwd = k /\ def[j].body
Forwarded(k) == \E j \in Tasks : FwdBy(k, j) /\ ts[j] \in {"out", "gone"}
DropInv(k) == (hs[k] \in {"held", "taken"} \/ (hs[k] = "await" /\ Forwarded(k))) /\ hs' = [hs EXCEPT ![k] = "dropping"] /\ UNCHANGED <<def, ts, own>>
RECURSIVE Dropping(_)
Dropping(k) == hs[k] = "dropping" \/ (own[k] >= 0 /\ Dropping(own[k]))
\* its state (parameters) is destroyed, once, and not while the body runs
ParamOut(k) == /\ ts[k] \in {"idle", "out"} /\ Dropping(k)
               /\ ts' = [ts EXCEPT ![k] = "gone"] /\ UNCHANGED <<def, hs, own>>
RECURSIVE AllGone(_)
AllGone(k) == IF def[k].body THEN ts[k] = "gone" ELSE AllGone(def[k].fwd)
DropRet(k) == /\ hs[k] = "dropping" /\ AllGone(k)
              /\ hs' = [hs EXCEPT ![k] = "dropped"] /\ UNCHANGED <<def, ts, own>>
\* nothing can happen any more: whoever waits for a finished task has been resumed
Quiesce == /\ \A k \in Tasks : hs[k] = "await" /\ own[k] < 0 => ~Finished(k) \/ Forwarded(k)
           /\ \A k \in Tasks : hs[k] # "dropping"
           /\ UNCHANGED vars
End == \A k \in Tasks : ts[k] # "none" /\ def[k].body => ts[k] = "gone"
\* ---- properties
ResultNeedsEnd == \A k \in Tasks : hs[k] = "taken" => Finished(k)
GoneIsDropped == \A k \in Tasks : ts[k] = "gone" => hs[k] \in {"dropping", "dropped", "owned"}
LazyWaits == \A k \in Tasks : def[k].lazy /\ def[k].body /\ hs[k] \in {"none", "held"} /\ own[k] < 0 => ts[k] \in {"none", "creating", "idle"}
=============================================================================
