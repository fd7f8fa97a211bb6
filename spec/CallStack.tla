----------------------------- MODULE CallStack -------------------------------
(* The call stack of a coroutine (trace.h): coroutine n that was started by an *)
(* await at location l of coroutine p has the stack l, then the stack of p; a  *)
(* coroutine nobody waits for (an eager task, a member of an async_scope, the  *)
(* operand of sync_wait) is a root: it has at most the location it was started *)
(* at.  Only locations of the user's program count: the library may insert its *)
(* own frames between them.                                                    *)
EXTENDS Naturals, Sequences
VARIABLES frame,   \* coroutine -> [p |-> coroutine that waits for it (0: none), l |-> where (0: not recorded)]
          over     \* coroutines that ran to their end
vars == <<frame, over>>
Known == DOMAIN frame
RECURSIVE Chain(_)
Chain(n) == LET f == frame[n]
            IN (IF f.l = 0 THEN <<>> ELSE <<f.l>>) \o (IF f.p = 0 THEN <<>> ELSE Chain(f.p))
Init == frame = <<>> /\ over = {}
\* p is about to await n, at l
Await(n, p, l) ==
  /\ n \notin Known
  /\ p = 0 \/ p \in Known \ over
  /\ frame' = [k \in Known \cup {n} |-> IF k = n THEN [p |-> p, l |-> l] ELSE frame[k]]
  /\ UNCHANGED over
\* n asks for its stack at location l and gets s; str: the text shows the same entries
Ask(n, l, s, str) ==
  /\ n \in Known \ over
  /\ s = <<l>> \o Chain(n)
  /\ str
  /\ UNCHANGED vars
Done(n) == n \in Known \ over /\ over' = over \cup {n} /\ UNCHANGED frame
\* the program ends when everything has
End(fin) == over = Known /\ fin = 1 /\ UNCHANGED vars
\* a coroutine ends after what it waits for
Nested == \A n \in Known : frame[n].p # 0 /\ frame[n].p \in over => n \in over
=============================================================================
