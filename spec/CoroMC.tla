------------------------------- MODULE CoroMC -------------------------------
(* every configuration with up to MaxSt statements and every owner.         *)
EXTENDS Coro, TLC
CONSTANTS Inits, Trs, MaxSt, Forms, Kinds, Modes, Throws
VARIABLE log   \* the steps performed so far
mvars == <<vars, log>>
Stmts == {s \in [f : Forms, k : Kinds \cup {"-"}, m : Modes, x : Throws \cup {"-"}] :
            /\ (s.f \in {"y", "z", "Z", "r", "x"}) = (s.k = "-")
            /\ s.f \in {"r", "x"} => s.m = "r" /\ s.x = "-"
            /\ s.f \in {"y", "z", "Z"} => s.m \in {"r", "s", "c"} /\ s.x \notin {"o", "t"}
            /\ s.f = "A" => s.k = "P"
            /\ s.x = "c" => s.k \notin {"L", "X"}
            /\ s.x = "o" => s.k \in {"M", "F"}
            /\ s.x = "y" => s.f \in {"Y", "y", "z", "Z"}
            /\ s.x = "s" => s.m # "r"}
Ok(c) == \A n \in DOMAIN c.st :
           /\ c.void => c.st[n].f \notin {"R", "Z"}
           /\ c.st[n].x = "t" => c.tr # "0"
           /\ (c.st[n].f \in {"R", "Z", "r", "x"}) => n = Len(c.st)
Ret(c) == c.void \/ (Len(c.st) > 0 /\ c.st[Len(c.st)].f \in {"R", "Z", "r", "x"})
Cfgs == {c \in [void : BOOLEAN, tr : Trs, ini : Inits, fin : {"n", "s", "p"}, unh : {"s", "r"},
                st : UNION {[1..n -> Stmts] : n \in 0..MaxSt}] : Ok(c) /\ Ret(c)}
Init == (\E c \in Cfgs : InitC(c)) /\ log = <<>>
Next == \/ (Create \/ Go \/ Destroy) /\ log' = log
        \/ \E ex, gone, done \in BOOLEAN : Back(ex, gone, done) /\ log' = log
        \/ Partner /\ log' = Append(log, Op("Partner", 0))
        \/ todo # <<>> /\ Do1(Head(todo).e, Head(todo).i) /\ log' = Append(log, Head(todo))
        \/ todo # <<>> /\ \E tr \in BOOLEAN : Suspend(Head(todo).i, TRUE, Head(todo).i = 2, tr) /\ log' = Append(log, Head(todo))
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Count(e, i) == Cardinality({j \in DOMAIN log : log[j].e = e /\ log[j].i = i})
CountE(e) == Cardinality({j \in DOMAIN log : log[j].e = e})
Ids == {log[j].i : j \in DOMAIN log}
First(e, i) == CHOOSE j \in DOMAIN log : log[j].e = e /\ log[j].i = i
\* every object is destroyed exactly once, after its construction, and nothing outlives the coroutine
Objects == \A i \in Ids : /\ Count("Ctor", i) <= 1 /\ Count("Dtor", i) <= Count("Ctor", i)
                          /\ (st = "gone" => Count("Dtor", i) = Count("Ctor", i))
                          /\ (Count("Dtor", i) = 1 => First("Ctor", i) < First("Dtor", i))
\* an awaiter is used between its construction and its destruction, in the order of the protocol, each step at most once
Awaiters == \A i \in Ids :
    /\ Count("Ready", i) <= 1 /\ Count("Suspend", i) <= Count("Ready", i) /\ Count("Resume", i) <= Count("Ready", i)
    /\ Count("Ready", i) = 1 =>
         /\ Count("Ctor", i) = 1 => First("Ctor", i) < First("Ready", i)
         /\ Count("Dtor", i) = 1 => First("Ready", i) < First("Dtor", i)
    /\ Count("Suspend", i) = 1 => First("Ready", i) < First("Suspend", i)
    /\ Count("Suspend", i) = 1 /\ Count("Resume", i) = 1 => First("Suspend", i) < First("Resume", i)
    /\ Count("Resume", i) = 1 /\ Count("Dtor", i) = 1 => First("Resume", i) < First("Dtor", i)
\* the result is set once, by a return or by an exception; final_suspend follows it and comes last
Outcome == /\ CountE("RetVal") + CountE("RetVoid") + CountE("Unhandled") <= 1
           /\ CountE("Final") <= CountE("RetVal") + CountE("RetVoid") + CountE("Unhandled")
           /\ st = "fin" => CountE("RetVal") + CountE("RetVoid") + CountE("Unhandled") = 1
           /\ CountE("Transform") > 0 => cfg.tr # "0"
           /\ \A i \in {1, 2} : Count("Transform", i) = 0
Ends == /\ CountE("PromiseDtor") <= 1 /\ CountE("ParamDtor") <= 1
        /\ st = "gone" => log[Len(log)].e = "ParamDtor" /\ CountE("PromiseDtor") = 1 /\ live = <<>>
\* objects die in the reverse order of their construction
Nested == \A i, j \in Ids : Count("Dtor", i) = 1 /\ Count("Dtor", j) = 1 /\ First("Ctor", i) < First("Ctor", j) /\ First("Ctor", j) < First("Dtor", i)
              => First("Dtor", j) < First("Dtor", i)
\* a running coroutine always gives control back
Returns == (at = "co") ~> (at = "own")
=============================================================================
