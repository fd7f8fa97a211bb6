------------------------------- MODULE Result -------------------------------
(* result objects in slots: each holds exactly one value or one error.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots
VARIABLES r,    \* r[s]: [k: none, val, err; p: payload, -1 once it has been moved away]
          ty    \* [mt, me: a move empties the value / error; dv: default constructed as a value; xe: a default error is empty]
vars == <<r, ty>>
None == [k |-> "none", p |-> 0]
Init0(t) == r = [s \in Slots |-> None] /\ ty = t
V(p) == [k |-> "val", p |-> p]
E(p) == [k |-> "err", p |-> p]
To(s, x) == r' = [r EXCEPT ![s] = x] /\ UNCHANGED ty
Same == UNCHANGED vars
Moved(x) == IF (x.k = "val" /\ ty.mt) \/ (x.k = "err" /\ ty.me) THEN [x EXCEPT !.p = -1] ELSE x

Def(s) == To(s, IF ty.dv THEN V(0) ELSE E(IF ty.xe THEN -1 ELSE 0))
\* from Ok(x), Err(x), by construction or assignment; an lvalue x keeps its value
Set(s, ok, p, src) == src = p /\ To(s, IF ok THEN V(p) ELSE E(p))
Copy(s, t) == r[t].k # "none" /\ To(s, r[t])
Move(s, t) == s # t /\ r[t].k # "none" /\ r' = [r EXCEPT ![s] = r[t], ![t] = Moved(r[t])] /\ UNCHANGED ty
Drop(s) == To(s, None)
\* assigned from what it holds, as the same kind, or as the other one
Self(s) == r[s].k # "none" /\ Same
Flip(s) == r[s].k # "none" /\ To(s, IF r[s].k = "val" THEN E(r[s].p) ELSE V(r[s].p))
\* a copy threw on the way: nothing was assigned
Threw(p) == p = 77 /\ Same
\* a coroutine returning a result awaits slot t and returns what it got
Await(s, t) == s # t /\ r[t].k # "none" /\ r' = [r EXCEPT ![s] = r[t], ![t] = IF r[t].k = "val" THEN Moved(r[t]) ELSE r[t]] /\ UNCHANGED ty
\* s becomes the result of wrapping an awaitable that gives value p (or throws p)
Wrap(s, ok, p) == To(s, IF ok THEN V(p) ELSE E(p))
Query(s, hv, he, bo, chv, che) == LET v == r[s].k = "val" IN hv = v /\ he = ~v /\ bo = v /\ chv = v /\ che = ~v /\ Same
Value(s, o, p) == o = r[s].k /\ p = r[s].p /\ Same
Error(s, o, p) == (IF r[s].k = "err" THEN o = "err" /\ p = r[s].p ELSE o = "bad") /\ Same
Write(s, o, p) == IF r[s].k = "val" THEN o = "val" /\ To(s, V(p)) ELSE o = "err" /\ p = r[s].p /\ Same
WriteErr(s, o, p) == IF r[s].k = "err" THEN o = "err" /\ To(s, E(p)) ELSE o = "bad" /\ Same
ValueOr(s, p, x, alt) == (IF r[s].k = "val" THEN x = r[s].p /\ ~alt ELSE x = p /\ alt) /\ Same
ErrorOr(s, p, x, alt) == (IF r[s].k = "err" THEN x = r[s].p /\ ~alt ELSE x = p /\ alt) /\ Same
Eq(s, ok, p, ne, x) == x = ((r[s] = (IF ok THEN V(p) ELSE E(p))) # ne) /\ Same
\* the observed state of all slots
State(o) == (\A s \in Slots : o[s + 1] = r[s]) /\ Same
OneKind == \A s \in Slots : r[s].k \in {"none", "val", "err"}
=============================================================================
