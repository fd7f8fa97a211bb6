-------------------------------- MODULE Stop -------------------------------
(* Stop requests and stop callbacks.                                        *)
EXTENDS Integers, FiniteSets
CONSTANTS Cbs, Threads
VARIABLES req,     \* a stop request has taken effect
          winner,  \* the thread whose request that was (-1: none yet)
          pend,    \* threads inside request_stop that have not taken effect
          inreq,   \* the winner is still inside request_stop
          cb,      \* cb[i]: none, reging, reg, dering, gone
          by,      \* by[i]: the thread that registers it
          run,     \* run[i]: no, on (running), ran
          runner,  \* runner[i]: the thread it runs on
          late,    \* late[i]: stop had been requested before the registration began
          srcs, dropping,  \* live sources / being dropped
          seen     \* seen[t]: req when the running query began, and whether stop was possible then
vars == <<req, winner, pend, inreq, cb, by, run, runner, late, srcs, dropping, seen>>
Init0(n) == /\ req = FALSE /\ winner = -1 /\ pend = {} /\ inreq = FALSE
            /\ cb = [i \in Cbs |-> "none"] /\ by = [i \in Cbs |-> -1] /\ run = [i \in Cbs |-> "no"] /\ runner = [i \in Cbs |-> -1]
            /\ late = [i \in Cbs |-> FALSE] /\ srcs = n /\ dropping = 0 /\ seen = [t \in Threads |-> <<FALSE, FALSE>>]
ReqInv(t) == pend' = pend \cup {t} /\ UNCHANGED <<req, winner, inreq, cb, by, run, runner, late, srcs, dropping, seen>>
\* the first request takes effect
ReqLin(t) == /\ t \in pend /\ ~req /\ req' = TRUE /\ winner' = t /\ inreq' = TRUE /\ pend' = pend \ {t}
             /\ UNCHANGED <<cb, by, run, runner, late, srcs, dropping, seen>>
\* the winner has run every callback that is registered; any other request is simply over
ReqRet(t, w) == \/ /\ winner = t /\ inreq /\ t \notin pend /\ w # "n"
                   /\ \A i \in Cbs : /\ (cb[i] = "reg" => run[i] = "ran")
                                     /\ ~(run[i] = "on" /\ runner[i] = t)
                   /\ inreq' = FALSE /\ UNCHANGED <<req, winner, pend, cb, by, run, runner, late, srcs, dropping, seen>>
                \/ /\ t \in pend /\ req /\ w # "y" /\ pend' = pend \ {t}
                   /\ UNCHANGED <<req, winner, inreq, cb, by, run, runner, late, srcs, dropping, seen>>
RegInv(i, t) == /\ cb[i] = "none" /\ cb' = [cb EXCEPT ![i] = "reging"] /\ by' = [by EXCEPT ![i] = t] /\ late' = [late EXCEPT ![i] = req]
                /\ UNCHANGED <<req, winner, pend, inreq, run, runner, srcs, dropping, seen>>
\* the callback runs at most once: on the registering thread, before the registration returns, or inside the winning request
CbIn(i, t) == /\ req /\ run[i] = "no"
              /\ \/ cb[i] = "reging" /\ by[i] = t
                 \/ ~late[i] /\ cb[i] \in {"reging", "reg", "dering"} /\ winner = t /\ inreq
              /\ run' = [run EXCEPT ![i] = "on"] /\ runner' = [runner EXCEPT ![i] = t]
              /\ UNCHANGED <<req, winner, pend, inreq, cb, by, late, srcs, dropping, seen>>
CbOut(i, t) == /\ run[i] = "on" /\ runner[i] = t /\ run' = [run EXCEPT ![i] = "ran"]
               /\ UNCHANGED <<req, winner, pend, inreq, cb, by, runner, late, srcs, dropping, seen>>
\* a registration after the request has run its callback; one before it is left to the winner
RegRet(i) == /\ cb[i] = "reging" /\ (late[i] => run[i] = "ran") /\ (run[i] = "on" => runner[i] # by[i])
             /\ (run[i] = "no" => ~req \/ inreq)
             /\ cb' = [cb EXCEPT ![i] = "reg"]
             /\ UNCHANGED <<req, winner, pend, inreq, by, run, runner, late, srcs, dropping, seen>>
DerInv(i) == /\ cb[i] = "reg" /\ cb' = [cb EXCEPT ![i] = "dering"]
             /\ UNCHANGED <<req, winner, pend, inreq, by, run, runner, late, srcs, dropping, seen>>
\* when deregistration returns the callback is not running, unless it is (indirectly) what deregisters itself
DerRet(i, t) == /\ cb[i] = "dering" /\ (run[i] = "on" => runner[i] = t)
                /\ cb' = [cb EXCEPT ![i] = "gone"]
                /\ UNCHANGED <<req, winner, pend, inreq, by, run, runner, late, srcs, dropping, seen>>
QInv(t) == seen' = [seen EXCEPT ![t] = <<req, req \/ srcs + dropping > 0>>] /\ UNCHANGED <<req, winner, pend, inreq, cb, by, run, runner, late, srcs, dropping>>
QRet(t, v) == (v => req) /\ (~v => ~seen[t][1]) /\ UNCHANGED vars
PRet(t, v) == (v => seen[t][2] \/ req) /\ (~v => ~seen[t][1] /\ srcs = 0) /\ UNCHANGED vars
SrcDropInv == srcs' = srcs - 1 /\ dropping' = dropping + 1 /\ UNCHANGED <<req, winner, pend, inreq, cb, by, run, runner, late, seen>>
SrcDropRet == dropping' = dropping - 1 /\ UNCHANGED <<req, winner, pend, inreq, cb, by, run, runner, late, srcs, seen>>
Quiesce == /\ pend = {} /\ ~inreq
           /\ (req => \A i \in Cbs : cb[i] = "reg" => run[i] = "ran")
           /\ UNCHANGED vars
\* ---- properties
OnlyWhenRequested == \A i \in Cbs : run[i] # "no" => req
AllNotified == \A i \in Cbs : req /\ ~inreq /\ cb[i] = "reg" => run[i] # "no"
GoneIsQuiet == \A i \in Cbs : cb[i] = "gone" /\ run[i] = "on" => runner[i] \in {winner, by[i]}
=============================================================================
