-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* The host's view of the library: one compilation result, any number of   *)
(* saved bytecodes, one linked program made of units, the modules that are *)
(* loaded, global variables and the result of the last run. Every call     *)
(* acts on this state; a call that fails leaves it as it was, except that  *)
(* the compilation result is always that of the last attempt and that the  *)
(* part of a run before its fault has happened.                            *)
(*                                                                         *)
(* A unit: id, bad (does not compile), nolink (calls a function that has   *)
(* no implementation), main (has global code that changes g), fault (the   *)
(* global code fails), init (of g), imp (imported modules), fns (functions:*)
(* name, kind, number, global it uses), gl (its global variables), mod     *)
(* (name of the module it defines, or "").                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[k] : k \in 1..Len(q)}
I(n) == <<"i", n>>
Ok == <<<<"ok", 0>>>>
Fail == <<<<"fail", 1>>>>                                  \* with a message
None == [id |-> 0]
Put(f, k, v) == (k :> v) @@ f
Keep(f, S) == [k \in DOMAIN f \cap S |-> f[k]]
Start(x) == [ctx |-> None, blobs |-> <<>>, prog |-> <<>>, pm |-> <<>>, body |-> <<>>, gv |-> <<>>, mods |-> <<>>, res |-> <<>>]
R(e, s) == [e |-> e, any |-> FALSE, s |-> s]
Anything(s) == [e |-> <<>>, any |-> TRUE, s |-> s]
\* ------------------------------------------------------------------ compile
Compiles(s, u) == ~u.bad /\ Range(u.imp) \subseteq DOMAIN s.mods
\* --------------------------------------------------------------------- link
Names(p) == UNION {{f[1] : f \in Range(p[k].fns)} : k \in 1..Len(p)}
Links(s, u) == /\ ~u.nolink
               /\ Range(u.imp) \subseteq (DOMAIN s.mods \cup DOMAIN s.pm)
               /\ Names(<<u>>) \cap Names(s.prog) = {}
ModFns(s, m) == IF s.mods[m].mod = m THEN s.mods[m].fns ELSE <<>>
AddFns(b, q) == LET N == {f[1] : f \in Range(q)} IN [n \in N |-> CHOOSE f \in Range(q) : f[1] = n] @@ b
RECURSIVE AddMods(_, _, _)
AddMods(s, q, k) == IF k > Len(q) THEN s
                    ELSE IF q[k] \in DOMAIN s.pm THEN AddMods(s, q, k + 1)
                    ELSE AddMods([s EXCEPT !.pm = Put(@, q[k], s.mods[q[k]]), !.body = AddFns(@, s.mods[q[k]].fns)], q, k + 1)
Link(s, u) == LET t == AddMods(s, u.imp, 1) IN [t EXCEPT !.prog = Append(@, u), !.body = AddFns(@, u.fns)]
Clean(s) == [s EXCEPT !.ctx = None, !.prog = <<>>, !.pm = <<>>, !.body = <<>>, !.gv = <<>>]
\* ---------------------------------------------------------------------- run
Known(s) == UNION {Range(s.prog[k].gl) : k \in 1..Len(s.prog)} \cup UNION {Range(s.pm[m].gl) : m \in DOMAIN s.pm}
RECURSIVE RunMods(_, _, _, _)
RunMods(s, q, k, r) == IF k > Len(q) THEN r
                       ELSE LET u == s.pm[q[k]] IN RunMods(s, q, k + 1, [e |-> Append(r.e, I(1000 + u.id)), g |-> Put(r.g, u.gl[1], u.id)])
RECURSIVE UseMods(_, _, _, _)
UseMods(s, q, k, r) == IF k > Len(q) THEN r
                       ELSE LET u == s.pm[q[k]]  v == r.g[u.gl[1]] IN UseMods(s, q, k + 1, [e |-> Append(r.e, I(v * 10 + u.id)), g |-> Put(r.g, u.gl[1], v + 2)])
Run(s) ==
  IF s.prog = <<>> THEN R(Fail, s)
  ELSE LET u == s.prog[1]
           z == [n \in Known(s) |-> 0]
           a == RunMods(s, u.imp, 1, [e |-> <<>>, g |-> z])
           b == [e |-> Append(a.e, I(u.id)), g |-> u.hv @@ a.g]
       IN IF ~u.main THEN R(Append(b.e, <<"r", u.id * 7>>), [s EXCEPT !.gv = b.g, !.res = <<u.id * 7>>])
          ELSE LET c == UseMods(s, u.imp, 1, b)
                   g == u.init + 1
               IN IF u.fault THEN R(c.e \o <<I(-u.id)>> \o Fail, [s EXCEPT !.gv = Put(c.g, "g", g), !.res = <<>>])
                  ELSE R(Append(c.e, <<"r", g * 100 + u.id>>), [s EXCEPT !.gv = Put(c.g, "g", g), !.res = <<g * 100 + u.id>>])
\* a call: [e, g, ok, v]
RECURSIVE Call(_, _, _, _)
Call(s, g, n, x) ==
  LET f == s.body[n] IN
  CASE f[2] = "f" -> LET v == g["g"] + x IN [e |-> <<I(v)>>, g |-> Put(g, "g", v), ok |-> TRUE, v |-> v * 3]
    [] f[2] = "boom" -> [e |-> <<>>, g |-> Put(g, "g", g["g"] + x), ok |-> FALSE, v |-> 0]
    [] f[2] = "c" -> LET q == Call(s, g, "f", x) IN [q EXCEPT !.v = @ + 1]
    [] f[2] = "w" -> [e |-> <<>>, g |-> g, ok |-> TRUE, v |-> x * 10 + f[3]]
    [] f[2] = "u" -> LET v == g[f[4]] + x IN [e |-> <<>>, g |-> Put(g, f[4], v), ok |-> TRUE, v |-> v]
    [] f[2] = "mget" -> [e |-> <<>>, g |-> g, ok |-> TRUE, v |-> g[f[4]] * 10 + f[3] + x]
    [] f[2] = "last" -> LET v == g["g"] + x                 \* compiled against the linked program: g and f are those of the program
                            q == Call(s, Put(g, "g", v), "f", x)
                        IN [q EXCEPT !.v = @ + f[3]]
Perform(s, n, x) == LET q == Call(s, s.gv, n, x) IN
   IF q.ok THEN R(Append(q.e, <<"r", q.v>>), [s EXCEPT !.gv = q.g, !.res = <<q.v>>])
   ELSE R(q.e \o Fail, [s EXCEPT !.gv = q.g, !.res = <<>>])
Single(s, n) == n \in DOMAIN s.body /\ s.body[n][2] # "over"
\* --------------------------------------------------------------- operations
Do(s, o) ==
  LET k == o[1] IN
  CASE k = "compile" -> IF Compiles(s, o[2]) THEN R(Ok, [s EXCEPT !.ctx = o[2]]) ELSE R(Fail, [s EXCEPT !.ctx = None])
    [] k = "analyze" -> R(IF Compiles(s, o[2]) THEN Ok ELSE Fail, [s EXCEPT !.ctx = None])
    [] k = "bytecode" -> IF s.ctx.id = 0 THEN R(Fail, s) ELSE R(Ok, [s EXCEPT !.blobs = Put(@, o[2], s.ctx)])
    [] k = "link" -> LET u == s.blobs[o[2]] IN IF Links(s, u) THEN R(Ok, Link(s, u)) ELSE R(Fail, s)
    [] k = "reinit" -> R(Ok, [Start(0) EXCEPT !.blobs = s.blobs])   \* terminate and initialize: saved bytecodes belong to the host
    [] k = "clean" -> R(Ok, Clean(s))
    [] k = "build" -> IF ~Compiles(s, o[2]) THEN R(Fail, [s EXCEPT !.ctx = None])
                      ELSE LET t == Clean(s) IN IF Links(t, o[2]) THEN R(Ok, Link(t, o[2])) ELSE R(Fail, t)
    [] k = "run" -> Run(s)
    [] k = "runfn" -> IF Single(s, o[2]) THEN Perform(s, o[2], o[3]) ELSE R(Fail, s)
    [] k = "getfn" -> IF Single(s, o[2]) THEN R(Ok, s) ELSE R(<<<<"fail", 0>>>>, s)
    [] k = "callfn" -> Perform(s, o[2], o[3])              \* through a function value obtained for that name
    [] k = "setfn" -> IF Single(s, o[2]) THEN R(Ok, [s EXCEPT !.body = Put(@, o[2], s.body[o[3]])]) ELSE R(Fail, s)
    [] k = "setbad" -> R(Fail, s)                            \* the replacement has another type
    [] k = "get" -> IF o[2] \in DOMAIN s.gv THEN R(<<<<"get", s.gv[o[2]]>>>>, s)
                    ELSE IF o[2] \in Known(s) THEN Anything(s) ELSE R(<<<<"none", 0>>>>, s)
    [] k = "set" -> IF o[2] \in DOMAIN s.gv THEN R(<<<<"set", 1>>>>, [s EXCEPT !.gv = Put(@, o[2], o[3])])
                    ELSE IF o[2] \in Known(s) THEN Anything(s) ELSE R(<<<<"set", 0>>>>, s)
    [] k = "module" -> IF o[2] \in DOMAIN s.mods THEN R(Fail, s)
                       ELSE IF ~Compiles(s, o[3]) THEN R(Fail, [s EXCEPT !.ctx = None])
                       ELSE R(Ok, [Clean(s) EXCEPT !.mods = Put(@, o[2], o[3])])
    [] k = "modbin" -> IF o[2] \in DOMAIN s.mods THEN R(Fail, s) ELSE R(Ok, [s EXCEPT !.mods = Put(@, o[2], s.blobs[o[3]])])
    [] k = "removemodule" -> R(Ok, [s EXCEPT !.mods = Keep(@, DOMAIN @ \ {o[2]})])
    [] k = "modules" -> R(<<<<"modules", IF o[2] \in DOMAIN s.mods THEN 1 ELSE 0>>>>, s)
    [] k = "result" -> IF s.res = <<>> THEN Anything(s) ELSE R(<<<<"r", s.res[1]>>>>, s)
    [] k = "lasterror" -> R(<<<<"lasterror", 1>>>>, s)      \* asked only after a failure
    [] k = "setting" -> R(<<>>, s)                           \* optimization level: not observable
Apply(s, o, r) == LET d == Do(s, o) IN [ok |-> d.any \/ r = d.e, exp |-> d.e, s |-> d.s]
Inv(s) == /\ DOMAIN s.gv \subseteq Known(s)                \* variables of the linked program only
          /\ (s.prog = <<>> => s.body = <<>> /\ s.gv = <<>>)
          /\ \A k \in 1..Len(s.prog) : Range(s.prog[k].imp) \subseteq DOMAIN s.pm
          /\ \A k, l \in 1..Len(s.prog) : k # l => Names(<<s.prog[k]>>) \cap Names(<<s.prog[l]>>) = {}
=============================================================================
