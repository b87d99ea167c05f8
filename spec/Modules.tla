------------------------------- MODULE Modules -------------------------------
(***************************************************************************)
(* The module system. A module has a name, imports other modules and       *)
(* defines a global variable, functions, a class, a generic function, a    *)
(* coroutine and a function value; its global code runs once per run of a  *)
(* program that needs it, after that of the modules it imports. A module   *)
(* is supplied by the host (as source or as a saved binary) or found       *)
(* through the import paths, the first of which that has it counts. How it *)
(* was supplied is not part of its meaning.                                *)
(*                                                                         *)
(* A unit: id (distinct numbers), name, imp (names, in order), bad (has an *)
(* error), ops (what its global code does besides: see Do).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[k] : k \in 1..Len(q)}
I(n) == <<"i", n>>
Ok == <<<<"ok", 0>>>>
Fail == <<<<"fail", 1>>>>
Put(f, k, v) == (k :> v) @@ f
\* start: the files visible through each import path, name -> unit
Start(x) == [files |-> x, mods |-> <<>>, blobs |-> <<>>, prog |-> <<>>]
RECURSIVE InPaths(_, _, _)
InPaths(fs, n, k) == IF k > Len(fs) THEN <<>> ELSE IF n \in DOMAIN fs[k] THEN <<fs[k][n]>> ELSE InPaths(fs, n, k + 1)
Find(s, n) == IF n \in DOMAIN s.mods THEN <<s.mods[n]>> ELSE InPaths(s.files, n, 1)
\* names that cannot be resolved, are on a cycle or have an error
RECURSIVE Resolves(_, _, _)
Resolves(s, n, path) == LET f == Find(s, n) IN
                        /\ f # <<>> /\ n \notin path
                        /\ \/ n \in DOMAIN s.mods                                   \* compiled when it was supplied
                              /\ \A k \in 1..Len(f[1].imp) : Resolves(s, f[1].imp[k], path \cup {n})
                           \/ /\ ~f[1].bad
                              /\ \A k \in 1..Len(f[1].imp) : Resolves(s, f[1].imp[k], path \cup {n})
Compiles(s, u) == ~u.bad /\ \A k \in 1..Len(u.imp) : Resolves(s, u.imp[k], {})
\* modules of a program: dependencies first, each once
RECURSIVE Order(_, _, _, _)
Order(s, q, k, r) == IF k > Len(q) THEN r
                     ELSE IF \E j \in 1..Len(r) : r[j].name = q[k] THEN Order(s, q, k + 1, r)
                     ELSE LET u == Find(s, q[k])[1] IN Order(s, q, k + 1, Append(Order(s, u.imp, 1, r), u))
\* --------------------------------------------------------------- execution
\* store: g (globals), n (coroutine counters), fn (function value: which of two functions), all by module name; ids by name
RECURSIVE SumAll(_, _, _)
SumAll(m, q, k) == IF k > Len(q) THEN 0 ELSE m.g[q[k]] + SumAll(m, q, k + 1)
Size == (0 :> 1) @@ (1 :> 4) @@ (2 :> 8)
Do(m, us, o) ==                                              \* [e, m]; o: kind, module, number
  LET k == o[1]  n == o[2]  x == o[3]  u == us[n]  id == u.id
      E(v) == [e |-> <<I(v)>>, m |-> m]
      Set(v) == [e |-> <<I(v)>>, m |-> [m EXCEPT !.g = Put(@, n, v)]]
  IN
  CASE k = "add" -> Set(m.g[n] + x)                          \* add_n(x)
    [] k = "get" -> E(m.g[n])                                \* the variable itself
    [] k = "set" -> [e |-> <<>>, m |-> [m EXCEPT !.g = Put(@, n, x)]]
    [] k = "gen" -> [e |-> <<I(x * 2 + id)>>, m |-> [m EXCEPT !.g = Put(@, n, m.g[n] + 1)]]     \* generic function: uses the variable
    [] k = "gend" -> [e |-> <<I(x * 2 + id)>>, m |-> [m EXCEPT !.g = Put(@, n, m.g[n] + 1)]]    \* at another type
    [] k = "cls" -> E(x * 10 + id)                           \* class made there, method called here
    [] k = "tcls" -> E(x * 3 + id)                           \* generic class
    [] k = "over" -> E(id)                                   \* overloaded on its class
    [] k = "sum" -> E(m.g[n] + SumAll(m, u.imp, 1))          \* its variable and those of its imports
    [] k = "via" -> LET d == u.imp[1 + (x % Len(u.imp))] v == m.g[d] + x IN [e |-> <<I(v)>>, m |-> [m EXCEPT !.g = Put(@, d, v)]]   \* add of an import, called there
    [] k = "tid" -> E(1)                                     \* the class is the same type everywhere
    [] k = "next" -> [e |-> <<I(m.n[n])>>, m |-> [m EXCEPT !.n = Put(@, n, @[n] + 1)]]
    [] k = "fn" -> IF m.fn[n] = 0 THEN Set(m.g[n] + x) ELSE E(x - id)
    [] k = "setfn" -> [e |-> <<>>, m |-> [m EXCEPT !.fn = Put(@, n, x % 2)]]
    [] k = "enum" -> E(id + 1)
    [] k = "ns" -> E(x * 5 + id)                             \* function in a namespace
    [] k = "virt" -> E(x * 100 + id)                         \* method overridden in a class derived from a class of the first import
    [] k = "def" -> E(id + x * 7)                            \* default argument value
    [] k = "oper" -> E(x + 4 + id)                           \* operator on its class
    [] k = "ext" -> E(x * 6 + id)                            \* method added to int
    [] k = "str" -> E(id)
    [] k = "exp" -> E(Size[x % 3] * 20 + Size[(x \div 3) % 3] * 3 + id)    \* generic function with explicit types: one instance per list of types
    [] k = "exq" -> [e |-> <<I(Size[x % 3] * 10 + id)>>, m |-> [m EXCEPT !.g = Put(@, n, m.g[n] + x)]]
    [] k = "cap" -> E(x + id)                                \* closure returned by it
RECURSIVE DoAll(_, _, _, _, _)
DoAll(m, us, q, k, e) == IF k > Len(q) THEN [e |-> e, m |-> m] ELSE LET d == Do(m, us, q[k]) IN DoAll(d.m, us, q, k + 1, e \o d.e)
RECURSIVE RunAll(_, _, _, _, _)
RunAll(m, us, q, k, e) == IF k > Len(q) THEN [e |-> e, m |-> m]
                          ELSE LET u == q[k]
                                   a == [m EXCEPT !.g = Put(@, u.name, u.id)]
                                   d == DoAll(a, us, u.ops, 1, Append(e, I(1000 + u.id)))
                               IN RunAll(d.m, us, q, k + 1, d.e)
Run(s) == LET q == s.prog
              us == [n \in {q[k].name : k \in 1..Len(q)} |-> LET k == CHOOSE k \in 1..Len(q) : q[k].name = n IN q[k]]
              z == [n \in DOMAIN us |-> 0]
          IN RunAll([g |-> z, n |-> z, fn |-> z], us, q, 1, <<>>).e
\* --------------------------------------------------------------- operations
R(e, s) == [e |-> e, s |-> s]
Do1(s, o) ==
  LET k == o[1] IN
  CASE k = "load" -> IF o[2].name \in DOMAIN s.mods \/ ~Compiles(s, o[2]) THEN R(Fail, s)
                     ELSE R(Ok, [s EXCEPT !.mods = Put(@, o[2].name, o[2]), !.prog = <<>>])
    [] k = "save" -> IF Compiles(s, o[2]) THEN R(<<<<"ok", 0>>, <<"ok", 0>>>>, [s EXCEPT !.blobs = Put(@, o[2].name, o[2])]) ELSE R(<<<<"fail", 1>>, <<"fail", 1>>>>, s)
    [] k = "bin" -> IF o[2] \in DOMAIN s.mods THEN R(Fail, s) ELSE R(Ok, [s EXCEPT !.mods = Put(@, o[2], s.blobs[o[2]])])
    [] k = "remove" -> R(Ok, [s EXCEPT !.mods = [n \in DOMAIN @ \ {o[2]} |-> @[n]]])
    [] k = "reinit" -> R(Ok, [s EXCEPT !.mods = <<>>, !.prog = <<>>])
    [] k = "build" -> IF Compiles(s, o[2]) THEN R(Ok, [s EXCEPT !.prog = Append(Order(s, o[2].imp, 1, <<>>), o[2])]) ELSE R(Fail, s)
    [] k = "run" -> IF s.prog = <<>> THEN R(Fail, s) ELSE R(Append(Run(s), <<"r", s.prog[Len(s.prog)].id>>), s)
Apply(s, o, r) == LET d == Do1(s, o) IN [ok |-> r = d.e, exp |-> d.e, s |-> d.s]
Inv(s) == /\ \A j, k \in 1..Len(s.prog) : j # k => s.prog[j].name # s.prog[k].name
          /\ \A j \in 1..Len(s.prog) : \A n \in Range(s.prog[j].imp) : \E k \in 1..(j - 1) : s.prog[k].name = n
=============================================================================
