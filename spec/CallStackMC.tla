---------------------------- MODULE CallStackMC ------------------------------
(* The frames as the library links them (traceable::set_parent), for every kind *)
(* of task and combinator, refine the abstract call stack.                      *)
EXTENDS CallStack, FiniteSets
CONSTANTS Nodes, Locs
VARIABLES tr,     \* object -> [l |-> location, p |-> object]; objects: <<"n", n>> the promise (or scope) of n, <<"o", n>> what the library puts around n
          kind    \* n -> "task", "eager", "scope" (when_all_scope)
mvars == <<vars, tr, kind>>
Lib == 1000
Null == <<"null", 0>>
P(n) == IF n = 0 THEN Null ELSE <<"n", n>>
O(n) == <<"o", n>>
MInit == Init /\ tr = [x \in {} |-> 0] /\ kind = <<>>
With(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]
L(l, p) == [l |-> l, p |-> p]
\* the links of n; lib: links of the object around it
Task(n, l, p, k) ==
  /\ kind' = With(kind, n, k)
  /\ IF k = "eager" THEN Await(n, 0, 0) ELSE Await(n, p, l)
Direct(n, p, l, k) ==    \* co_await n, co_await wrap(n), co_await n.when_ready()
  /\ Task(n, l, p, k)
  /\ tr' = With(tr, P(n), IF k = "eager" THEN L(0, Null) ELSE L(l, P(p)))
Around(n, p, l, k) ==    \* when_all: the awaitable; make_task, take_until: their task; scoped: the scoped_task, whose parent is the scope
  /\ k # "eager" /\ Task(n, l, p, k)
  /\ tr' = With(With(tr, P(n), L(Lib, O(n))), O(n), L(l, P(p)))
Apart(n, p, l, k, root) ==   \* root 0: start_on, make_eager: an eager task around; l: async_scope::add, sync_wait
  /\ k # "eager" /\ kind' = With(kind, n, k) /\ Await(n, 0, root)
  /\ tr' = With(With(tr, P(n), L(Lib, O(n))), O(n), L(root, Null))
Next ==
  \/ \E n \in Nodes, p \in (Known \ over) \cup {0}, l \in Locs, k \in {"task", "eager", "scope"} :
       /\ n \notin Known /\ (\A m \in Nodes : m < n => m \in Known)
       /\ \/ Direct(n, p, l, k)
          \/ Around(n, p, l, k)
          \/ Apart(n, p, l, k, 0)
          \/ Apart(n, p, l, k, l)
  \/ \E n \in Known : /\ \A m \in Known : frame[m].p = n => m \in over
                      /\ Done(n) /\ UNCHANGED <<tr, kind>>
Spec == MInit /\ [][Next]_mvars
RECURSIVE Walk(_)
Walk(x) == IF x = Null THEN <<>> ELSE (IF tr[x].l \in {0, Lib} THEN <<>> ELSE <<tr[x].l>>) \o Walk(tr[x].p)
\* a coroutine that has not ended reports its chain of callers; what it points to is still there
Reported == \A n \in Known \ over : Walk(P(n)) = Chain(n)
LiveLinks == \A n \in Known \ over : frame[n].p = 0 \/ frame[n].p \notin over
=============================================================================
