------------------------------- MODULE Scope -------------------------------
(***************************************************************************)
(* Which declaration a name denotes, which programs are rejected because   *)
(* of their names, and what an accepted program then does.                 *)
(*                                                                         *)
(* A program is a tree of statements; every declaration has an id, the     *)
(* value of the variable or the result of the function, so that the        *)
(* emitted values tell which declaration was used. It is elaborated        *)
(* statement by statement. State E of the elaboration:                     *)
(*  st    the open scopes, innermost last: [k, p, d, f, c], k is "ns"      *)
(*        (namespace with path p, the global scope is path <<>>), "blk"    *)
(*        (block), "fn" (parameters and top level of function f) or "cls"  *)
(*        (class c named p, the first f are inherited); d are its declarations [k, n, a, id], k is "v"        *)
(*        variable, "f" function with a parameters, "t" type               *)
(*  ns    the namespaces that exist, with their declarations               *)
(*  vs    number of variables; fs functions [ps, b, ret, cap]; cs classes  *)
(*        [d, ms, b, id]                                                   *)
(*  code  resolved statements: variables and functions by number           *)
(*  strict  no exception is made for known findings                          *)
(*  flag  "ok", "rej" (rejected) or "any" (nothing is promised)            *)
(* Every statement of an accepted program runs once per execution of the   *)
(* function holding it; Run executes the resolved code on a store.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Flag(E, f) == IF E.flag = "ok" THEN [E EXCEPT !.flag = f] ELSE E
Top(E) == E.st[Len(E.st)]
RECURSIVE NsAt(_, _, _)
NsAt(E, p, x) == IF x > Len(E.ns) THEN 0 ELSE IF E.ns[x].p = p THEN x ELSE NsAt(E, p, x + 1)
IsNs(E, p) == NsAt(E, p, 1) > 0
Decls(E, sc) == IF sc.k = "ns" THEN E.ns[NsAt(E, sc.p, 1)].d ELSE sc.d
Here(E) == Decls(E, Top(E))
(* the last declaration of name n and one of the kinds ks in d, 0: none *)
RECURSIVE Last(_, _, _, _)
Last(d, n, ks, x) == IF x = 0 THEN 0 ELSE IF d[x].n = n /\ d[x].k \in ks THEN x ELSE Last(d, n, ks, x - 1)
Has(d, n, ks) == Last(d, n, ks, Len(d)) > 0
Get(d, n, ks) == d[Last(d, n, ks, Len(d))]
NsPath(E) == LET RECURSIVE P(_)
                 P(x) == IF E.st[x].k = "ns" THEN E.st[x].p ELSE P(x - 1) IN P(Len(E.st))
Add(E, d) == LET sc == Top(E) IN
  IF sc.k = "ns" THEN [E EXCEPT !.ns[NsAt(E, sc.p, 1)].d = Append(@, d)]
  ELSE [E EXCEPT !.st[Len(E.st)].d = Append(@, d)]
Push(E, k, p, f, c, d) == [E EXCEPT !.st = Append(@, [k |-> k, p |-> p, d |-> d, f |-> f, c |-> c])]
Pop(E) == [E EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Emit(E, i) == [E EXCEPT !.code = Append(@, i)]
I(op, x, a) == [op |-> op, x |-> x, a |-> a]

(***************************************************************************)
(* Use of a declaration that lives in scope number idx: functions opened   *)
(* after it capture it, a method of a local class cannot.                  *)
(***************************************************************************)
Crosses(E, idx) == \E x \in (idx + 1)..Len(E.st) : E.st[x].k = "cls"
FirstFn(E, idx) == LET s == {x \in (idx + 1)..Len(E.st) : E.st[x].k = "fn"} IN IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : x <= y
Capture(E, from) ==         \* the functions whose scopes come after scope number from
  [E EXCEPT !.fs = [g \in 1..Len(E.fs) |-> IF \E x \in (from + 1)..Len(E.st) : E.st[x].k = "fn" /\ E.st[x].f = g THEN [E.fs[g] EXCEPT !.cap = TRUE] ELSE E.fs[g]]]
Touch(E, idx) ==
  CASE E.st[idx].k \in {"blk", "fn"} -> IF Crosses(E, idx) THEN Flag(E, "rej") ELSE Capture(E, idx)
    [] E.st[idx].k = "cls" -> Capture(E, FirstFn(E, idx))
    [] OTHER -> E

(* unqualified variable: [r, id, at] *)
No(r) == [r |-> r, id |-> 0, at |-> 0]
RECURSIVE FindVar(_, _, _, _)
FindVar(E, n, x, inner) ==
  IF x = 0 THEN No("rej")
  ELSE LET sc == E.st[x]  d == Decls(E, sc) IN
    IF sc.k = "cls" /\ inner THEN (IF Has(d, n, {"f"}) THEN No("any") ELSE IF Has(d, n, {"v"}) THEN No("rej") ELSE FindVar(E, n, x - 1, TRUE))
    ELSE IF Has(d, n, {"t"}) THEN No("rej")
    ELSE IF Has(d, n, {"v"}) THEN [r |-> "ok", id |-> Get(d, n, {"v"}).id, at |-> x]
    ELSE IF Has(d, n, {"f"}) THEN No("rej")
    ELSE FindVar(E, n, x - 1, inner \/ sc.k = "cls")

(* unqualified function call: the visible functions of the name, innermost first *)
Funs(d, n, x) == LET RECURSIVE F(_)
                     F(y) == IF y = 0 THEN <<>> ELSE IF d[y].n = n /\ d[y].k = "f" THEN <<[a |-> d[y].a, id |-> d[y].id, at |-> x]>> \o F(y - 1) ELSE F(y - 1)
                 IN F(Len(d))
RECURSIVE Chain(_, _, _, _, _)
Chain(E, n, x, inner, c) ==
  IF x = 0 THEN [r |-> "ok", c |-> c]
  ELSE LET sc == E.st[x]  d == Decls(E, sc)  fs == Funs(d, n, x) IN
    IF Has(d, n, {"t"}) THEN [r |-> "any", c |-> <<>>]
    ELSE IF sc.k = "cls" THEN
      (IF inner THEN (IF Has(d, n, {"v", "f"}) THEN [r |-> "any", c |-> <<>>] ELSE Chain(E, n, x - 1, TRUE, c))
       ELSE IF c # <<>> THEN (IF Has(d, n, {"v", "f"}) THEN [r |-> "any", c |-> <<>>] ELSE Chain(E, n, x - 1, TRUE, c))
       ELSE IF Has(d, n, {"v"}) THEN [r |-> "rej", c |-> <<>>]
       ELSE IF fs # <<>> THEN [r |-> "ok", c |-> fs]
       ELSE Chain(E, n, x - 1, TRUE, c))
    ELSE IF Has(d, n, {"v"}) THEN (IF c = <<>> THEN [r |-> "rej", c |-> <<>>] ELSE [r |-> "ok", c |-> c])
    ELSE IF sc.k = "ns" /\ fs # <<>> THEN [r |-> "ok", c |-> c \o fs]
    ELSE Chain(E, n, x - 1, inner, c \o fs)
Pick(c, a) == LET RECURSIVE P(_)
                  P(y) == IF y > Len(c) THEN No("rej") ELSE IF c[y].a = a THEN [r |-> "ok", id |-> c[y].id, at |-> c[y].at] ELSE P(y + 1)
              IN P(1)
FindFun(E, n, a) ==
  LET c == Chain(E, n, Len(E.st), FALSE, <<>>)
      far == \E x \in 1..Len(c.c) : E.st[c.c[x].at].k \in {"blk", "fn"} /\ Crosses(E, c.c[x].at)
  IN IF c.r # "ok" THEN No(c.r)
     ELSE IF far /\ Len(c.c) > 1 /\ ~E.strict THEN No("any")         \* known finding: overloaded local functions in a method of a local class
     ELSE IF far /\ ~E.strict /\ (\E y \in 1..Len(E.st) : E.st[y].k = "cls" /\ \E x \in 1..Len(c.c) : c.c[x].at > y /\ Crosses(E, c.c[x].at)) THEN No("any")  \* known finding: a function local to a method captures the object
     ELSE Pick(c.c, a)

RECURSIVE FindType(_, _, _)
FindType(E, n, x) ==
  IF x = 0 THEN No("rej")
  ELSE LET d == Decls(E, E.st[x]) IN
    IF Has(d, n, {"t"}) THEN [r |-> "ok", id |-> Get(d, n, {"t"}).id, at |-> x]
    ELSE FindType(E, n, x - 1)

(* qualified name q.n: the namespace q is looked for from the current namespace outward *)
Qual(E, n, q, ks, a) ==
  LET cp == NsPath(E)
      RECURSIVE L(_, _)
      Match(p) == LET d == E.ns[NsAt(E, p, 1)].d  s == {x \in 1..Len(d) : d[x].n = n /\ d[x].k \in ks /\ (d[x].k # "f" \/ d[x].a = a)} IN
                  IF s = {} THEN 0 ELSE d[CHOOSE x \in s : \A y \in s : y <= x].id
      L(x, seen) == IF x < 0 THEN No("rej")
                    ELSE LET p == SubSeq(cp, 1, x) \o q  h == SubSeq(cp, 1, x) \o <<q[1]>> IN
                      IF IsNs(E, p) /\ Match(p) > 0 THEN (IF seen THEN No("any") ELSE [r |-> "ok", id |-> Match(p), at |-> 1])
                      ELSE L(x - 1, seen \/ IsNs(E, h))
  IN L(Len(cp), FALSE)

(* a qualifier that also names a type or a variable: a member of it might be meant *)
Odd(E, q) == q # <<>> /\ \E x \in 1..Len(E.st) : Has(Decls(E, E.st[x]), q[1], {"v", "t", "f"})
VarOf(E, n, q) == IF Odd(E, q) THEN No("any") ELSE IF q = <<>> THEN FindVar(E, n, Len(E.st), FALSE) ELSE Qual(E, n, q, {"v"}, 0)
FunOf(E, n, q, a) == IF Odd(E, q) THEN No("any") ELSE IF q = <<>> THEN FindFun(E, n, a) ELSE Qual(E, n, q, {"f"}, a)
TypeOf(E, n, q) == IF Odd(E, q) THEN No("any") ELSE IF q = <<>> THEN FindType(E, n, Len(E.st)) ELSE Qual(E, n, q, {"t"}, 0)

(***************************************************************************)
(* Conflicts                                                               *)
(***************************************************************************)
(***************************************************************************)
(* Functions and types have a full name: declarations of a namespace, also *)
(* those in blocks directly in it, are prefixed by its path, declarations  *)
(* inside functions and classes and at global level are not.               *)
(***************************************************************************)
RECURSIVE Prefix(_, _)
Prefix(E, x) == IF E.st[x].k \in {"fn", "cls"} THEN <<>> ELSE IF E.st[x].k = "ns" THEN E.st[x].p ELSE Prefix(E, x - 1)
VisibleType(E, n, p) == \E x \in 1..Len(E.st) : Prefix(E, x) = p /\ Has(Decls(E, E.st[x]), n, {"t"})
NsNamed(E, n) == IsNs(E, Append(NsPath(E), n))
VarConflict(E, n) == VisibleType(E, n, Prefix(E, Len(E.st))) \/ Has(Here(E), n, {"v", "f"}) \/ NsNamed(E, n)
(* a visible function of the same full name and parameters, a variable of the name hides it *)
RECURSIVE Outer(_, _, _, _)
Outer(E, n, a, x) ==
  IF x = 0 THEN FALSE
  ELSE LET sc == E.st[x]  d == Decls(E, sc) IN
    IF sc.k # "ns" /\ Prefix(E, x) = Prefix(E, Len(E.st)) /\ Has(d, n, {"v"}) THEN FALSE
    ELSE IF sc.k # "cls" /\ Prefix(E, x) = Prefix(E, Len(E.st)) /\ \E y \in 1..Len(d) : d[y].k = "f" /\ d[y].n = n /\ d[y].a = a THEN TRUE
    ELSE Outer(E, n, a, x - 1)
FunConflict(E, n, a) ==
  LET d == Here(E) IN
  \/ Top(E).k # "cls" /\ Has(d, n, {"v"})
  \/ \E y \in 1..Len(d) : d[y].k = "f" /\ d[y].n = n /\ d[y].a = a /\ (Top(E).k # "cls" \/ y > Top(E).f)
  \/ Top(E).k \in {"blk", "fn"} /\ Outer(E, n, a, Len(E.st))
TypeConflict(E, n) == Has(Here(E), n, {"t", "v"}) \/ NsNamed(E, n) \/ VisibleType(E, n, Prefix(E, Len(E.st)))

DeclVar(E, n, id) ==         \* the new variable's number is E.nv + 1
  LET E1 == IF VarConflict(E, n) THEN Flag(E, "rej") ELSE E IN
  Add([E1 EXCEPT !.nv = @ + 1], [k |-> "v", n |-> n, a |-> 0, id |-> E.nv + 1])

RECURSIVE Stmts(_, _, _), Stmt(_, _), Params(_, _, _), Members(_, _, _, _), Spaces(_, _, _, _)
Params(E, ps, x) == IF x > Len(ps) THEN E ELSE Params(DeclVar(E, ps[x], 0), ps, x + 1)

(* an argument: a literal or a variable; a generic function takes functions as well *)
Args(E, as, gen) == LET RECURSIVE A(_, _, _)
                   A(e, x, o) == IF x > Len(as) THEN [e |-> e, o |-> o]
                                 ELSE IF as[x].k = "lit" THEN A(e, x + 1, Append(o, <<0, as[x].v>>))
                                 ELSE LET v == VarOf(e, as[x].n, as[x].q) IN IF v.r # "ok" THEN A(Flag(e, IF gen THEN "any" ELSE v.r), x + 1, Append(o, <<0, 0>>))
                                      ELSE A(Touch(e, v.at), x + 1, Append(o, <<1, v.id>>))
               IN A(E, 1, <<>>)

(* a function: its name is visible in its own body; a lambda is kept in a variable *)
Fn(E, f) ==
  LET g == Len(E.fs) + 1
      v0 == E.nv
      E1 == IF FunConflict(E, f.n, Len(f.ps)) THEN Flag(E, "rej") ELSE E
      E1a == IF Has(Here(E1), f.n, {"t"}) \/ NsNamed(E1, f.n) \/ (Top(E1).k = "cls" /\ (Has(Here(E1), f.n, {"v"}) \/ Top(E1).p = <<f.n>>)) THEN Flag(E1, "any") ELSE E1
      E2 == Add([E1a EXCEPT !.fs = Append(@, [ps |-> <<>>, b |-> <<>>, ret |-> f.id, cap |-> f.lam])], [k |-> "f", n |-> f.n, a |-> Len(f.ps), id |-> g])
      E3 == Params(Push(E2, "fn", <<>>, g, 0, <<>>), f.ps, 1)
      E4 == Stmts([E3 EXCEPT !.code = <<>>], f.b, 1)
  IN [Pop(E4) EXCEPT !.fs[g].ps = [x \in 1..Len(f.ps) |-> v0 + x], !.fs[g].b = E4.code, !.code = E.code]

(* members, then methods one after another, then the method tag_ with body tb *)
Members(E, ms, x, o) == IF x > Len(ms) THEN [e |-> E, o |-> o]
                        ELSE Members(DeclVar(E, ms[x].n, 0), ms, x + 1, Append(o, <<E.nv + 1, ms[x].id>>))
Class(E, c) ==
  LET k == Len(E.cs) + 1
      b == IF c.base = "" THEN No("ok") ELSE FindType(E, c.base, Len(E.st))
      B == IF b.id = 0 THEN [d |-> <<>>, ms |-> <<>>] ELSE E.cs[b.id]
      E0 == IF b.r # "ok" THEN Flag(E, b.r) ELSE IF b.id > 0 /\ ~E.cs[b.id].ext THEN Flag(E, "rej") ELSE E
      E1 == IF TypeConflict(E0, c.n) THEN Flag(E0, "rej") ELSE E0
      E1a == IF Has(Here(E1), c.n, {"f"}) THEN Flag(E1, "any") ELSE E1
      E2 == Add([E1a EXCEPT !.cs = Append(@, [d |-> <<>>, ms |-> <<>>, b |-> <<>>, id |-> c.id, ext |-> c.ext])], [k |-> "t", n |-> c.n, a |-> 0, id |-> k])
      E3 == IF \E x \in 1..Len(B.d) : B.d[x].k = "v" /\ (VisibleType(E2, B.d[x].n, <<>>) \/ NsNamed(E2, B.d[x].n)) THEN Flag(E2, "any") ELSE E2
      M == Members(Push(E3, "cls", <<c.n>>, Len(B.d), k, B.d), c.ms, 1, <<>>)
      RECURSIVE Ms(_, _)
      Ms(e, x) == IF x > Len(c.fs) THEN e ELSE Ms(Fn(e, c.fs[x]), x + 1)
      E4 == Ms(M.e, 1)
      E5 == Stmts([Push([E4 EXCEPT !.fs = Append(@, [ps |-> <<>>, b |-> <<>>, ret |-> 0, cap |-> FALSE])], "fn", <<>>, Len(E4.fs) + 1, 0, <<>>) EXCEPT !.code = <<>>], c.tb, 1)
  IN [Pop(Pop(E5)) EXCEPT !.cs[k] = [d |-> Top(Pop(E5)).d, ms |-> B.ms \o M.o, b |-> E5.code, id |-> c.id, ext |-> c.ext], !.code = E.code]

(* opening namespace q[x..]: it is created when it does not exist *)
Spaces(E, q, x, b) ==
  IF x > Len(q) THEN [e |-> E, n |-> 0]
  ELSE LET p == Append(NsPath(E), q[x])
           bad == Has(Here(E), q[x], {"v", "f", "t"})
           E1 == IF bad THEN Flag(E, "rej") ELSE E
           E2 == IF IsNs(E1, p) THEN E1 ELSE [E1 EXCEPT !.ns = Append(@, [p |-> p, d |-> <<>>])]
       IN Spaces(Push(E2, "ns", p, 0, 0, <<>>), q, x + 1, b)

Stmt(E, t) ==
  CASE t.k = "var" -> LET E1 == DeclVar(E, t.n, t.id) IN Emit(E1, I("set", E1.nv, <<0, t.id>>))
    [] t.k = "use" -> LET v == VarOf(E, t.n, t.q) IN IF v.r # "ok" THEN Flag(E, v.r) ELSE Emit(Touch(E, v.at), I("use", v.id, <<>>))
    [] t.k = "set" -> LET v == VarOf(E, t.n, t.q) IN IF v.r # "ok" THEN Flag(E, v.r) ELSE Emit(Touch(E, v.at), I("set", v.id, <<0, t.v>>))
    [] t.k = "call" -> LET a == Args(E, t.a, t.g)  f == FunOf(a.e, t.n, t.q, Len(t.a)) IN
                       IF f.r # "ok" THEN Flag(a.e, f.r)
                       ELSE LET sc == a.e.st[f.at]
                                E1 == IF sc.k = "cls" THEN Touch(a.e, f.at) ELSE IF a.e.fs[f.id].cap THEN Touch(a.e, f.at) ELSE a.e
                            IN Emit(E1, I("call", f.id, a.o))
    [] t.k = "type" -> LET y == TypeOf(E, t.n, t.q) IN IF y.r # "ok" THEN Flag(E, y.r) ELSE Emit(E, I("new", y.id, <<>>))
    [] t.k = "fn" -> Fn(E, t)
    [] t.k = "class" -> Class(E, t)
    [] t.k = "td" -> LET y == TypeOf(E, t.c, t.q)
                         E1 == IF y.r # "ok" THEN Flag(E, y.r) ELSE E
                         E2 == IF TypeConflict(E1, t.n) \/ VisibleType(E1, t.n, <<>>) THEN Flag(E1, "rej") ELSE E1
                     IN Add(E2, [k |-> "t", n |-> t.n, a |-> 0, id |-> y.id])
    [] t.k = "blk" -> Pop(Stmts(Push(E, "blk", <<>>, 0, 0, <<>>), t.b, 1))
    [] t.k = "for" -> LET E1 == DeclVar(Push(E, "blk", <<>>, 0, 0, <<>>), t.n, t.id)
                          E2 == Emit(E1, I("set", E1.nv, <<0, t.id>>))
                      IN Pop(Pop(Stmts(Push(E2, "blk", <<>>, 0, 0, <<>>), t.b, 1)))
    [] t.k = "ns" -> LET s == Spaces(E, t.q, 1, 0)
                         RECURSIVE Ps(_, _)
                         Ps(e, x) == IF x = 0 THEN e ELSE Ps(Pop(e), x - 1)
                     IN Ps(Stmts(s.e, t.b, 1), Len(t.q))
    [] OTHER -> E
Stmts(E, b, x) == IF x > Len(b) \/ E.flag # "ok" THEN E ELSE Stmts(Stmt(E, b[x]), b, x + 1)

Empty == [st |-> <<>>, ns |-> <<[p |-> <<>>, d |-> <<>>]>>, nv |-> 0, fs |-> <<>>, cs |-> <<>>, code |-> <<>>, flag |-> "ok", strict |-> FALSE]
(* the imported module's declarations stand in the global scope *)
Elaborate(o) == Stmts(Stmts(Push([Empty EXCEPT !.strict = o.strict], "ns", <<>>, 0, 0, <<>>), o.mod, 1), o.b, 1)

(***************************************************************************)
(* Execution of the resolved code: X = [m (the store), o (emitted)]        *)
(***************************************************************************)
LIMIT == 1500
RECURSIVE Run(_, _, _, _)
Value(X, a) == IF a[1] = 0 THEN a[2] ELSE X.m[a[2]]
Run(E, code, x, X) ==
  IF x > Len(code) \/ Len(X.o) > LIMIT THEN X
  ELSE LET c == code[x] IN
  CASE c.op = "set" -> Run(E, code, x + 1, [X EXCEPT !.m[c.x] = c.a[2]])
    [] c.op = "use" -> Run(E, code, x + 1, [X EXCEPT !.o = Append(@, <<"i", X.m[c.x]>>)])
    [] c.op = "call" -> LET f == E.fs[c.x]
                            X1 == [X EXCEPT !.m = [v \in 1..Len(X.m) |-> IF \E y \in 1..Len(f.ps) : f.ps[y] = v THEN Value(X, c.a[CHOOSE y \in 1..Len(f.ps) : f.ps[y] = v]) ELSE X.m[v]]]
                            X2 == Run(E, f.b, 1, X1)
                        IN Run(E, code, x + 1, [X2 EXCEPT !.o = Append(@, <<"i", f.ret>>)])
    [] c.op = "new" -> LET k == E.cs[c.x]
                           In(v) == {y \in 1..Len(k.ms) : k.ms[y][1] = v}
                           X1 == [X EXCEPT !.m = [v \in 1..Len(X.m) |-> IF In(v) # {} THEN k.ms[CHOOSE y \in In(v) : TRUE][2] ELSE X.m[v]]]
                           X2 == Run(E, k.b, 1, X1)
                           X3 == [X2 EXCEPT !.m = [v \in 1..Len(X.m) |-> IF In(v) # {} THEN X.m[v] ELSE X2.m[v]]]
                       IN Run(E, code, x + 1, [X3 EXCEPT !.o = Append(@, <<"i", k.id>>)])

Start(x) == Empty
(* resolved code refers to existing things only *)
CodeOK(E, b) == \A x \in 1..Len(b) : CASE b[x].op \in {"set", "use"} -> b[x].x \in 1..E.nv [] b[x].op = "call" -> b[x].x \in 1..Len(E.fs) [] OTHER -> b[x].x \in 1..Len(E.cs)
Inv(E) == E.flag = "ok" => /\ CodeOK(E, E.code)
                           /\ \A f \in 1..Len(E.fs) : CodeOK(E, E.fs[f].b)
                           /\ \A x \in 1..Len(E.ns) : \A y \in 1..Len(E.ns) : E.ns[x].p = E.ns[y].p => x = y
                           /\ \A x \in 1..Len(E.ns) : LET d == E.ns[x].d IN \A a \in 1..Len(d) : \A b \in 1..Len(d) :
                                (a # b /\ d[a].n = d[b].n) => {d[a].k, d[b].k} \in {{"f"}, {"f", "t"}} /\ (d[a].k = d[b].k => d[a].a # d[b].a)
Apply(E0, o, r) ==
  LET E == Elaborate(o)
      X == IF E.flag = "ok" THEN Run(E, E.code, 1, [m |-> [v \in 1..E.nv |-> 0], o |-> <<>>]) ELSE [m |-> <<>>, o |-> <<>>]
      big == Len(X.o) > LIMIT
      exp == IF E.flag = "ok" THEN X.o ELSE <<<<E.flag, 0>>>>
      sane == \A x \in 1..Len(r) : r[x][1] \in {"i", "rej"}
  IN [ok |-> IF big THEN sane /\ Len(r) >= LIMIT /\ SubSeq(r, 1, LIMIT) = SubSeq(X.o, 1, LIMIT) ELSE IF E.flag = "any" THEN sane ELSE r = exp, exp |-> IF big THEN <<>> ELSE exp, s |-> E]
=============================================================================
