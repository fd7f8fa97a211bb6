------------------------------- MODULE Bulk -------------------------------
(* Long histories: many operations of one component, of which only the      *)
(* numbers are recorded.  An operation is started (made), may be taken back *)
(* (dropped) and is over once (done), some of them with an error; none is   *)
(* over while whatever it waits for is closed; nothing is over twice, with  *)
(* a wrong result or out of order (bad); what the component itself counts   *)
(* is what is open; and in the end everything is over.                      *)
EXTENDS Integers
VARIABLES made, hi, done, dropped, failing, failed, open
vars == <<made, hi, done, dropped, failing, failed, open>>
Init0 == made = 0 /\ hi = 0 /\ done = 0 /\ dropped = 0 /\ failing = 0 /\ failed = 0 /\ open = FALSE
Pending == made - done - dropped
Made(n, f, h) == /\ f <= n /\ made' = made + n /\ failing' = failing + f /\ hi' = hi + h
                 /\ UNCHANGED <<done, dropped, failed, open>>
Drop(n, f) == /\ n <= Pending /\ f <= n /\ dropped' = dropped + n /\ failing' = failing - f
              /\ UNCHANGED <<made, hi, done, failed, open>>
Open == open' = TRUE /\ UNCHANGED <<made, hi, done, dropped, failing, failed>>
\* whatever was pending is over before it closes
Close == Pending = 0 /\ open' = FALSE /\ UNCHANGED <<made, hi, done, dropped, failing, failed>>
Done(n, f, bad) == /\ bad = 0 /\ (n > 0 => open) /\ n <= Pending /\ f <= n /\ failed + f <= failing
                   /\ (Pending = n => failed + f = failing)
                   /\ done' = done + n /\ failed' = failed + f
                   /\ UNCHANGED <<made, hi, dropped, failing, open>>
Count(v, h) == v = Pending /\ h = hi /\ UNCHANGED vars
OnceEach == done + dropped <= made /\ failed <= done /\ failed <= failing
All == Pending = 0 /\ failed = failing /\ UNCHANGED vars
============================================================================
