-------------------------------- MODULE Coro --------------------------------
(* The protocol a coroutine follows, whether native or written with the     *)
(* MC_ macros.  A coroutine is a sequence of statements; Prog(c) is the     *)
(* sequence of observable steps its body performs when nobody interferes,   *)
(* and the state machine below interleaves it with the owner that resumes   *)
(* and destroys it.                                                         *)
(* A configuration c: [void, tr, ini, fin, unh, st]                         *)
(*   tr: 0 no await_transform, 1 one that gives its operand back, 2 one that *)
(*   gives a new object; ini: s suspends, r does not;                       *)
(*   I Q S: initial_suspend(), its await_ready or await_suspend throws;     *)
(*   E F: await_resume throws, without and after suspending;        *)
(*   fin: n does not suspend, s suspends, p transfers to a partner;         *)
(*   unh: s unhandled_exception() swallows, r rethrows.                     *)
(* A statement [f, k, m, x]                                                 *)
(*   f: a co_await e;  s v = co_await e;  t try {v = co_await e} catch;     *)
(*      f g(co_await e);  A co_await co_await e;  Y co_yield co_await e;    *)
(*      R co_return co_await e;  y co_yield v;  z w = co_yield v;           *)
(*      Z co_return co_yield v;  r co_return;  x throw                      *)
(*   k: P prvalue, L lvalue, X xvalue awaiter; M/F member/free co_await     *)
(*   m: r ready; s suspends; c, i continues at once; p transfers;           *)
(*      d is destroyed while it suspends                                    *)
(*   x: what throws: c constructor, t await_transform, o operator co_await, *)
(*      r await_ready, s await_suspend, e await_resume, y yield_value       *)
(* Objects: 10*n the operand of statement n, +5 its awaiter from operator   *)
(* co_await, +2 the awaiter awaited second, +3 the one from yield_value, +4 *)
(* and +6 what await_transform makes of the operand and of +2;              *)
(* 1 and 2 the awaiters of initial_suspend and final_suspend.               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,   \* the configuration
          todo,  \* what the coroutine still has to do
          live,  \* its temporary objects, oldest first
          at,    \* co: the coroutine has control; own: its owner has
          st     \* none, run, susp, fin (suspended at the final suspend point), gone
vars == <<cfg, todo, live, at, st>>

Op(e, i) == [e |-> e, i |-> i, s |-> ""]
Susp(i, m) == [e |-> "Suspend", i |-> i, s |-> m]
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Dtors(objs) == [j \in 1..Len(objs) |-> Op("Dtor", objs[Len(objs) + 1 - j])]

(* A piece of a statement: steps performed, objects created that are still  *)
(* alive, and whether it ended with an exception.                           *)
Piece(ops, objs, thrown) == [ops |-> ops, objs |-> objs, thrown |-> thrown]
Then(a, b) == IF a.thrown THEN a ELSE Piece(a.ops \o b.ops, a.objs \o b.objs, b.thrown)
Do(e, i) == Piece(<<Op(e, i)>>, <<>>, FALSE)
May(e, i, thrown) == Piece(<<Op(e, i)>>, <<>>, thrown)
New(i, thrown) == IF thrown THEN Piece(<<Op("CtorThrow", i)>>, <<>>, TRUE) ELSE Piece(<<Op("Ctor", i)>>, <<i>>, FALSE)
Nothing == Piece(<<>>, <<>>, FALSE)

\* await_ready, await_suspend, await_resume of awaiter i
Await(i, m, x) ==
  Then(May("Ready", i, x = "r"),
  Then(IF m = "r" THEN Nothing ELSE Piece(<<Susp(i, IF x = "s" THEN "" ELSE m)>>, <<>>, x = "s"),
       May("Resume", i, x = "e")))
\* await_transform gives the operand back, or a new object t
Transform(c, i, t, thrown) == CASE c.tr = "0" -> Nothing [] c.tr = "1" -> May("Transform", i, thrown) [] c.tr = "2" -> Then(May("Transform", i, thrown), New(t, FALSE))
Trans(c, i, t) == IF c.tr = "2" THEN t ELSE i
Val(c, n, s) == IF s.k \in {"M", "F"} THEN 10 * n + 5 ELSE Trans(c, 10 * n, 10 * n + 4)
\* co_await of the operand of statement n; transformed unless it comes from yield_value, initial_suspend, final_suspend
Operand(c, n, s) ==
  LET i == 10 * n
      made == IF s.k \in {"L", "X"} THEN Nothing ELSE New(i, s.x = "c")
      trans == Transform(c, i, i + 4, s.x = "t")
      op == IF s.k \in {"M", "F"} THEN Then(May("CoAwait", Trans(c, i, i + 4), s.x = "o"), New(i + 5, FALSE)) ELSE Nothing
  IN Then(Then(made, trans), Then(op, Await(Val(c, n, s), s.m, s.x)))
\* how a second awaiter of the statement behaves: it only suspends or not
Mode2(s) == IF s.m \in {"p", "d"} THEN "s" ELSE s.m
Yielded(n, v, m, x) == Then(May("Yield", v, x = "y"), Then(New(10 * n + 3, x = "c"), Await(10 * n + 3, m, x)))

(* The whole statement: its steps including the end of the temporaries, and *)
(* how it ends: next, ret or exc.                                           *)
Expr(c, n, s) ==
  CASE s.f \in {"a", "s", "t"} -> Operand(c, n, s)
    [] s.f = "f" -> Then(Operand(c, n, s), Do("Fn", Val(c, n, s)))
    [] s.f = "A" -> Then(Operand(c, n, s), Then(New(10 * n + 2, FALSE),
                    Then(Transform(c, 10 * n + 2, 10 * n + 6, FALSE), Await(Trans(c, 10 * n + 2, 10 * n + 6), Mode2(s), "-"))))
    [] s.f = "Y" -> Then(Operand(c, n, s), Then(May("Yield", Val(c, n, s), s.x = "y"),
                    Then(New(10 * n + 3, FALSE), Await(10 * n + 3, Mode2(s), "-"))))
    [] s.f = "R" -> Then(Operand(c, n, s), Do("RetVal", Val(c, n, s)))
    [] s.f \in {"y", "z"} -> Yielded(n, 10 * n, s.m, s.x)
    [] s.f = "Z" -> Then(Yielded(n, 10 * n, s.m, s.x), Do("RetVal", 10 * n + 3))
    [] s.f = "r" -> IF c.void THEN Do("RetVoid", 0) ELSE Do("RetVal", 10 * n)
    [] s.f = "x" -> May("Throwing", 10 * n, TRUE)
Stmt(c, n) ==
  LET s == c.st[n] p == Expr(c, n, s) all == p.ops \o Dtors(p.objs) IN
  IF p.thrown THEN IF s.f = "t" THEN [ops |-> Append(all, Op("GotErr", 10 * n)), end |-> "next"] ELSE [ops |-> all, end |-> "exc"]
  ELSE [ops |-> CASE s.f \in {"s", "t"} -> Append(all, Op("Got", Val(c, n, s)))
                  [] s.f = "z" -> Append(all, Op("Got", 10 * n + 3))
                  [] OTHER -> all,
        end |-> IF s.f \in {"R", "Z", "r"} THEN "ret" ELSE "next"]

Gone == <<Op("PromiseDtor", 0), Op("ParamDtor", 0)>>
Final(c) == <<Op("Final", 0), Op("Ctor", 2), Op("Ready", 2)>> \o
            (IF c.fin = "n" THEN <<Op("Resume", 2), Op("Dtor", 2)>> \o Gone
             ELSE <<Susp(2, IF c.fin = "p" THEN "p" ELSE "s")>>)
Failed(c) == <<Op("Unhandled", 0)>> \o (IF c.unh = "r" THEN <<Op("Rethrown", 0)>> ELSE Final(c))
RECURSIVE Body(_, _)
Body(c, n) ==
  IF n > Len(c.st) THEN (IF c.void THEN <<Op("RetVoid", 0)>> ELSE <<>>) \o Final(c)
  ELSE LET s == Stmt(c, n) IN
       s.ops \o CASE s.end = "next" -> Body(c, n + 1) [] s.end = "ret" -> Final(c) [] s.end = "exc" -> Failed(c)
\* what goes wrong before the initial await_resume concerns the creator, the coroutine is gone
Prog(c) ==
  <<Op("PromiseCtor", 0), Op("GetRet", 0), Op("Initial", 0)>> \o
  IF c.ini = "I" THEN Gone \o <<Op("Threw", 0)>>
  ELSE <<Op("Ctor", 1), Op("Ready", 1)>> \o
       (IF c.ini \in {"s", "F"} THEN <<Susp(1, "s")>> ELSE IF c.ini = "S" THEN <<Susp(1, "")>> ELSE <<>>) \o
       CASE c.ini \in {"s", "r"} -> <<Op("Resume", 1), Op("Dtor", 1)>> \o Body(c, 1)
         [] c.ini \in {"Q", "S"} -> <<Op("Dtor", 1)>> \o Gone \o <<Op("Threw", 0)>>
         [] c.ini \in {"E", "F"} -> <<Op("Resume", 1), Op("Dtor", 1)>> \o Failed(c)
\* what a coroutine that is destroyed while it is suspended still does
Unwind == Dtors(live) \o Gone

(* ------------------------------------------------------------------------ *)
InitC(c) == cfg = c /\ todo = <<>> /\ live = <<>> /\ at = "own" /\ st = "none"
Create == /\ at = "own" /\ st = "none"
          /\ at' = "co" /\ st' = "run" /\ todo' = Prog(cfg) /\ UNCHANGED <<cfg, live>>
Go == /\ at = "own" /\ st = "susp"
      /\ at' = "co" /\ st' = "run" /\ UNCHANGED <<cfg, todo, live>>
Destroy == /\ at = "own" /\ st \in {"susp", "fin"}
           /\ at' = "co" /\ st' = "run" /\ todo' = Unwind /\ UNCHANGED <<cfg, live>>
\* the coroutine performs its next step
Do1(e, i) ==
  /\ at = "co" /\ st = "run" /\ todo # <<>>
  /\ Head(todo).e = e /\ Head(todo).i = i /\ e \notin {"Suspend", "Rethrown", "Threw"}
  /\ todo' = Tail(todo)
  /\ live' = CASE e = "Ctor" -> Append(live, i) [] e = "Dtor" -> SubSeq(live, 1, Len(live) - 1) [] OTHER -> live
  /\ (e = "Dtor" => live[Len(live)] = i)
  /\ st' = IF e = "ParamDtor" THEN "gone" ELSE st
  /\ UNCHANGED <<cfg, at>>
\* await_suspend is called, with the handle of this coroutine, which counts as suspended by now
Suspend(i, own, done, tr) ==
  /\ at = "co" /\ st = "run" /\ todo # <<>>
  /\ Head(todo).e = "Suspend" /\ Head(todo).i = i
  /\ own /\ done = (i = 2) /\ tr = (Head(todo).s = "p")
  /\ st' = CASE Head(todo).s \in {"s", "p"} -> (IF i = 2 THEN "fin" ELSE "susp") [] OTHER -> "run"
  /\ todo' = (IF Head(todo).s = "d" THEN Unwind ELSE IF Head(todo).s = "p" THEN <<Op("Partner", 0)>> \o Tail(todo) ELSE Tail(todo))
  /\ UNCHANGED <<cfg, live, at>>
\* control was transferred to the partner
Partner == /\ at = "co" /\ st \in {"susp", "fin"} /\ todo # <<>> /\ Head(todo).e = "Partner"
           /\ todo' = Tail(todo) /\ UNCHANGED <<cfg, live, at, st>>
\* control is back at whoever created, resumed or destroyed the coroutine
Back(ex, gone, done) ==
  /\ at = "co"
  /\ \/ st = "run" /\ todo = <<Op("Rethrown", 0)>> /\ ex /\ ~gone /\ done /\ st' = "fin" /\ todo' = <<>>
     \/ st \in {"susp", "fin"} /\ (IF todo = <<>> THEN TRUE ELSE Head(todo).e # "Partner") /\ ~ex /\ ~gone /\ done = (st = "fin") /\ UNCHANGED <<st, todo>>
     \/ st = "gone" /\ todo \in {<<>>, <<Op("Threw", 0)>>} /\ ex = (todo # <<>>) /\ gone /\ todo' = <<>> /\ UNCHANGED st
  /\ at' = "own" /\ UNCHANGED <<cfg, live>>
=============================================================================
