------------------------------ MODULE BulkMC ------------------------------
EXTENDS Bulk, TLC
CONSTANT Max
Next == \/ \E n \in 0..Max, f \in 0..Max : (made + n <= Max /\ Made(n, f, 0)) \/ Drop(n, 0) \/ Done(n, f, 0)
        \/ Open \/ Close \/ (All /\ made > 0)
Spec == Init0 /\ [][Next]_vars
\* nothing is over while it is closed
NotWhileClosed == [][done' # done => open]_vars
============================================================================
