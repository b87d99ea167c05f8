------------------------------- MODULE Replace -------------------------------
(***************************************************************************)
(* Replacing functions of a running program. Every function of the program *)
(* has a body; a call - by name, through a function value, from another    *)
(* function or from the host - runs the body the function has at that      *)
(* moment, with the arguments and the context (object, captured variables) *)
(* of the call. Overriding f with g gives f the present body of g, and is  *)
(* refused without effect when the types differ, when g needs a context    *)
(* that calls of f do not provide, or when a function value is null;       *)
(* overriding with text gives f the compiled text as its body, and is      *)
(* refused when it does not compile. Code linked later sees the functions  *)
(* and globals of the program as they are.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[k] : k \in 1..Len(q)}
I(n) == <<"i", n>>
R1(n) == <<"r", n>>
Put(f, k, v) == (k :> v) @@ f
\* start: body (initial bodies by function), ty (types), cx (context kind by function, "" for none), vals (function values: <<function, context>>, function "" is null), g
Start(x) == [init |-> x, body |-> x.body, ty |-> x.ty, cx |-> x.cx, vals |-> x.vals, g |-> x.g, inc |-> <<>>]
RECURSIVE Call(_, _, _, _)                                   \* s, function, argument, context -> [v, e, s]
Call(s, f, x, t) ==
  LET b == s.body[f]  k == b[1]
      V(v) == [v |-> v, e |-> <<>>, s |-> s] IN
  CASE k = "lin" -> V(x * b[2] + b[3])
    [] k = "lin3" -> V(x * b[2] + (x + 1) * b[3] + (x + 2) * b[4])
    [] k = "glob" -> [v |-> s.g + x + b[2], e |-> <<>>, s |-> [s EXCEPT !.g = @ + x]]
    [] k = "ev" -> [v |-> x, e |-> <<I(x + b[2])>>, s |-> s]
    [] k = "this" -> V(t * b[2] + x)
    [] k = "cap" -> V(x + t)
    [] k = "call" -> IF x < 1 THEN V(b[3]) ELSE LET q == Call(s, b[2], x - 1, 0) IN [q EXCEPT !.v = @ + b[3]]
    [] k = "twice" -> IF x < 1 THEN V(b[3]) ELSE LET p == Call(s, b[2], x - 1, 0) q == Call(p.s, b[2], x - 1, 0) IN [v |-> p.v - q.v + b[3], e |-> p.e \o q.e, s |-> q.s]
    [] k = "morph" -> LET q == Call([s EXCEPT !.body = Put(@, b[2], <<"lin", b[3], 1>>)], b[2], x, 0) IN [q EXCEPT !.v = @ + x]
    [] k = "evalin" -> [v |-> x, e |-> <<>>, s |-> [s EXCEPT !.g = @ + b[2]]]
Fits(s, f, g) == f # "" /\ g # "" /\ s.ty[f] = s.ty[g] /\ (s.cx[g] = "" \/ s.cx[g] = s.cx[f])
NoR(s) == [e |-> <<>>, s |-> s]
RECURSIVE Loop(_, _, _, _, _)                                \* f(0) .. f(n - 1), summed
Loop(r, f, x, n, acc) == IF x = n THEN [e |-> Append(r.e, I(acc)), s |-> r.s] ELSE LET q == Call(r.s, f, x, 0) IN Loop([e |-> r.e \o q.e, s |-> q.s], f, x + 1, n, acc + q.v)
\* ------------------------------------------------ operations of the script
Act(s, o) ==                                                 \* [e, s]
  LET k == o[1]
      C(f, x, t) == LET q == Call(s, f, x, t) IN [e |-> Append(q.e, I(q.v)), s |-> q.s]
      Ov(f, g) == IF Fits(s, f, g) THEN [e |-> <<I(0)>>, s |-> [s EXCEPT !.body = Put(@, f, s.body[g])]] ELSE [e |-> <<I(1)>>, s |-> s]
  IN
  CASE k = "call" -> C(o[2], o[3], 0)                        \* by name
    [] k = "mcall" -> C(o[2], o[3], o[4])                    \* method of an object with that value
    [] k = "via" -> C(o[2], o[3], 0)                         \* from another function
    [] k = "arg" -> C(o[2], o[3], 0)                         \* passed as an argument
    [] k = "val" -> LET p == s.vals[o[2]] IN C(p[1], o[3], p[2])
    [] k = "take" -> NoR([s EXCEPT !.vals = Put(@, o[2], <<o[3], o[4]>>)])
    [] k = "copy" -> NoR([s EXCEPT !.vals = Put(@, o[2], s.vals[o[3]])])
    [] k = "loop" -> Loop(NoR(s), o[2], 0, o[3], 0)
    [] k = "ov" -> Ov(o[2], o[3])
    [] k = "ovval" -> Ov(s.vals[o[2]][1], s.vals[o[3]][1])
    [] k = "text" -> [e |-> <<I(0)>>, s |-> [s EXCEPT !.body = Put(@, o[2], o[3])]]
    [] k = "bad" -> [e |-> <<I(1)>>, s |-> s]                \* text that does not compile
    [] k = "textval" -> IF s.vals[o[2]][1] = "" THEN [e |-> <<I(1)>>, s |-> s] ELSE [e |-> <<I(0)>>, s |-> [s EXCEPT !.body = Put(@, s.vals[o[2]][1], o[3])]]
    [] k = "eval" -> LET q == Call([s EXCEPT !.g = @ + o[2]], o[3], 2, 0) IN [e |-> Append(q.e, I(q.v)), s |-> q.s]
    [] k = "badeval" -> [e |-> <<I(1)>>, s |-> s]
    [] k = "g" -> [e |-> <<I(s.g)>>, s |-> s]
    [] k = "setg" -> NoR([s EXCEPT !.g = o[2]])
RECURSIVE Acts(_, _, _)
Acts(r, q, k) == IF k > Len(q) THEN r ELSE LET d == Act(r.s, q[k]) IN Acts([e |-> r.e \o d.e, s |-> d.s], q, k + 1)
\* --------------------------------------------------- operations of the host
Do(s, o) ==
  LET k == o[1] IN
  CASE k = "script" -> LET d == Acts(NoR(s), o[2], 1) IN [e |-> Append(d.e, R1(7)), s |-> d.s]
    [] k = "hcall" -> LET q == Call(s, o[2], o[3], 0) IN [e |-> Append(q.e, R1(q.v)), s |-> q.s]
    [] k = "hset" -> IF Fits(s, o[2], o[3]) THEN [e |-> <<<<"ok", 0>>>>, s |-> [s EXCEPT !.body = Put(@, o[2], s.body[o[3]])]] ELSE [e |-> <<<<"fail", 1>>>>, s |-> s]
    [] k = "link" -> [e |-> <<<<"ok", 0>>, <<"ok", 0>>, <<"ok", 0>>>>, s |-> [s EXCEPT !.inc = Put(@, o[2], <<o[3], o[4]>>)]]    \* new function: g += 1, then a call
    [] k = "ncall" -> LET n == s.inc[o[2]] q == Call([s EXCEPT !.g = @ + 1], n[1], o[3], 0) IN [e |-> Append(q.e, R1(q.v + n[2])), s |-> q.s]
    [] k = "badlink" -> [e |-> <<<<"fail", 1>>>>, s |-> s]
    [] k = "get" -> [e |-> <<<<"get", s.g>>>>, s |-> s]
    [] k = "set" -> [e |-> <<<<"set", 1>>>>, s |-> [s EXCEPT !.g = o[2]]]
    [] k = "rerun" -> [e |-> <<R1(9)>>, s |-> [s EXCEPT !.g = s.init.g, !.vals = s.init.vals]]              \* bodies stay
    [] k = "rebuild" -> [e |-> <<R1(9)>>, s |-> Start(s.init)]
Apply(s, o, r) == LET d == Do(s, o) IN [ok |-> r = d.e, exp |-> d.e, s |-> d.s]
Inv(s) == /\ \A f \in DOMAIN s.body : s.body[f][1] \in {"this", "cap"} => s.cx[f] # ""
          /\ \A f \in DOMAIN s.body : s.body[f][1] = "lin3" => s.ty[f] = "h"
          /\ DOMAIN s.body = DOMAIN s.init.body
=============================================================================
