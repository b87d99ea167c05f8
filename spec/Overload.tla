------------------------------ MODULE Overload ------------------------------
(***************************************************************************)
(* Which of the visible functions of a name a call selects, and which      *)
(* values its parameters receive.                                          *)
(*                                                                         *)
(* State: C.types, a table of every type by name: kind k ("n" number,      *)
(* "c" class, "r" reference, "a" fixed array of len n, "u" unsized array,  *)
(* "f" function, "ar" auto ref, "aa" auto[], "nul" nullptr, "g" generic,   *)
(* "al" alias @T), subtype of, and for classes the list of bases up.       *)
(* C.funs: the candidates, each with its parameters p: [nm, t, ex, df, dt, *)
(* dn] (name, type, explicit, has default, type and value of the default), *)
(* gen (generic), own (class of a method, "" for a free function).         *)
(* A call has arguments [t, nm, n, dyn]: static type, argument name or "", *)
(* the number identifying its value and the class of the object.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
NO == 0 - 1

K(C, t) == C.types[t].k
Of(C, t) == C.types[t].of
Ups(C, t) == C.types[t].up
Derived(C, a, b) == \E x \in 1..Len(Ups(C, a)) : Ups(C, a)[x] = b     \* a derives from b

(* cost of passing a value of type a to a parameter of type p *)
Exact(C, a, p, fs) == \/ a = p
                      \/ K(C, p) = "f" /\ \E x \in 1..Len(fs) : fs[x] = p       \* a function name stands for each of its overloads
Cost(C, a, p, ex, fs) ==
  LET ka == K(C, a)  kp == K(C, p) IN
  IF a = p THEN 0
  ELSE IF a = "nullptr" /\ kp \in {"r", "u", "f"} THEN 0
  ELSE IF a = "nullptr" /\ kp \in {"ar", "aa"} THEN 5
  ELSE IF C.types[p].gn THEN 0
  ELSE IF ex THEN (IF Exact(C, a, p, fs) THEN 0 ELSE NO)
  ELSE IF kp = "u" /\ ka = "a" /\ Of(C, a) = Of(C, p) THEN 2
  ELSE IF kp = "aa" /\ ka \in {"a", "u"} THEN 5
  ELSE IF kp = "r" /\ ka = "r" /\ K(C, Of(C, p)) = "u" /\ K(C, Of(C, a)) = "a" /\ Of(C, Of(C, p)) = Of(C, Of(C, a)) THEN 10
  ELSE IF kp = "r" /\ ka = "r" /\ K(C, Of(C, p)) = "c" /\ K(C, Of(C, a)) = "c" /\ Derived(C, Of(C, a), Of(C, p)) THEN 5
  ELSE IF kp = "r" /\ ka = "r" /\ K(C, Of(C, p)) = "c" /\ K(C, Of(C, a)) = "c" /\ Derived(C, Of(C, p), Of(C, a)) THEN 10
  ELSE IF kp = "f" THEN (IF Exact(C, a, p, fs) THEN 0 ELSE NO)
  ELSE IF kp = "r" /\ Of(C, p) = a THEN 5
  ELSE IF kp = "ar" /\ ka = "r" THEN 5
  ELSE IF kp = "ar" THEN 10
  ELSE IF kp = "n" /\ ka = "n" THEN 1
  ELSE NO

(* the type a generic parameter type becomes for an argument: [ok, t, env] *)
Fail(env) == [ok |-> FALSE, t |-> "", env |-> env]
Decay(C, a) == IF K(C, a) = "a" THEN Of(C, a) \o "[]" ELSE a
Lookup(env, nm) == {x \in 1..Len(env) : env[x].nm = nm}
RECURSIVE Match(_, _, _, _, _)
Match(C, p, a, strict, env) ==
  IF ~C.types[p].gn THEN (IF strict /\ p # a THEN Fail(env) ELSE [ok |-> TRUE, t |-> p, env |-> env])
  ELSE CASE K(C, p) = "g" /\ C.types[p].nm = "" -> [ok |-> TRUE, t |-> IF strict THEN a ELSE Decay(C, a), env |-> env]
         [] K(C, p) = "g" -> LET t == IF strict THEN a ELSE Decay(C, a)
                                 b == Lookup(env, C.types[p].nm) IN
             IF b = {} THEN [ok |-> TRUE, t |-> t, env |-> Append(env, [nm |-> C.types[p].nm, t |-> t])]
             ELSE LET old == env[CHOOSE x \in b : TRUE].t IN IF strict /\ old # t THEN Fail(env) ELSE [ok |-> TRUE, t |-> old, env |-> env]
         [] K(C, p) = "r" -> IF K(C, a) = "r" THEN LET m == Match(C, Of(C, p), Of(C, a), TRUE, env) IN IF m.ok THEN [m EXCEPT !.t = m.t \o " ref"] ELSE Fail(env)
                             ELSE IF strict THEN Fail(env)
                             ELSE LET m == Match(C, Of(C, p), a, TRUE, env) IN IF m.ok THEN [m EXCEPT !.t = m.t \o " ref"] ELSE Fail(env)
         [] K(C, p) = "u" -> IF K(C, a) = "u" \/ (K(C, a) = "a" /\ ~strict) THEN LET m == Match(C, Of(C, p), Of(C, a), TRUE, env) IN IF m.ok THEN [m EXCEPT !.t = m.t \o "[]"] ELSE Fail(env)
                             ELSE Fail(env)
         [] OTHER -> Fail(env)

(* arguments in the order of the parameters, with defaults filled in and variadic ones packed: [ok, as, extra]; packed ones are one argument of type "auto ref[]" *)
Named(as) == \E x \in 1..Len(as) : as[x].nm # ""
Dflt(p) == [t |-> p.dt, nm |-> "", n |-> p.dn, dyn |-> p.dt, fs |-> <<>>, pack |-> <<>>]
Prep(C, f, as) ==
  LET n == Len(f.p) IN
  IF Named(as) THEN
     LET u == CHOOSE k \in 0..Len(as) : (\A x \in 1..k : as[x].nm = "") /\ (k = Len(as) \/ as[k + 1].nm # "")
         by(q) == {x \in (u + 1)..Len(as) : as[x].nm = f.p[q].nm}
         have == \A x \in (u + 1)..Len(as) : \E q \in 1..n : f.p[q].nm = as[x].nm
     IN IF ~have \/ u > n \/ \E q \in (u + 1)..n : by(q) = {} /\ ~f.p[q].df THEN [ok |-> FALSE, as |-> <<>>, extra |-> 0]
        ELSE [ok |-> TRUE, extra |-> 0, as |-> [q \in 1..n |-> IF q <= u THEN as[q] ELSE IF by(q) # {} THEN as[CHOOSE x \in by(q) : TRUE] ELSE Dflt(f.p[q])]]
  ELSE
     LET m == Len(as)
         fill == {q \in (m + 1)..n : f.p[q].df}
         base == as \o [x \in 1..(IF \A q \in (m + 1)..n : q \in fill \/ (q = n /\ f.p[q].t = "auto ref[]") THEN (IF n > m THEN Len(SelectSeq([q \in 1..(n - m) |-> m + q], LAMBDA q : q \in fill)) ELSE 0) ELSE 0) |-> Dflt(f.p[m + x])]
         va == n > 0 /\ f.p[n].t = "auto ref[]" /\ ~f.p[n].ex
     IN IF va /\ Len(base) >= n - 1 /\ ~(Len(base) = n /\ base[n].t = "auto ref[]")
        THEN [ok |-> TRUE, extra |-> 5 * (Len(base) - n + 1),
              as |-> [q \in 1..n |-> IF q < n THEN base[q] ELSE [t |-> "auto ref[]", nm |-> "", n |-> 0, dyn |-> "", fs |-> <<>>, pack |-> [x \in 1..(Len(base) - n + 1) |-> base[n - 1 + x]]]]]
        ELSE [ok |-> Len(base) = n, as |-> base, extra |-> 0]

RECURSIVE Sum(_, _, _, _, _)
Sum(C, f, ts, as, q) ==      \* total cost of the parameters q.. or NO
  IF q > Len(ts) THEN 0
  ELSE LET c == Cost(C, as[q].t, ts[q], f.p[q].ex, as[q].fs)
       IN IF c = NO THEN NO ELSE LET r == Sum(C, f, ts, as, q + 1) IN IF r = NO THEN NO ELSE c + r
RECURSIVE Inst(_, _, _, _, _, _)
Inst(C, f, as, q, env, ts) ==
  IF q > Len(f.p) THEN [ok |-> TRUE, ts |-> ts]
  ELSE LET m == Match(C, f.p[q].t, as[q].t, FALSE, env)
       IN IF m.ok THEN Inst(C, f, as, q + 1, m.env, Append(ts, m.t)) ELSE [ok |-> FALSE, ts |-> <<>>]
Ptypes(f) == [q \in 1..Len(f.p) |-> f.p[q].t]
Rate(C, f, as) ==            \* [r: rating or NO, ts: parameter types, as: arguments]
  LET P == Prep(C, f, as) IN
  IF ~P.ok THEN [r |-> NO, ts |-> <<>>, as |-> <<>>]
  ELSE LET g == Sum(C, f, Ptypes(f), P.as, 1) IN
       IF g = NO THEN [r |-> NO, ts |-> <<>>, as |-> <<>>]
       ELSE IF ~f.gen THEN [r |-> g + P.extra, ts |-> Ptypes(f), as |-> P.as]
       ELSE LET I == Inst(C, f, P.as, 1, <<>>, <<>>) IN
            IF ~I.ok THEN [r |-> NO, ts |-> <<>>, as |-> <<>>]
            ELSE [r |-> Sum(C, f, I.ts, P.as, 1), ts |-> I.ts, as |-> P.as]
Visible(C, o, f) == IF o.recv = "" THEN f.own = "" ELSE f.own = o.recv \/ (f.own # "" /\ Derived(C, o.recv, f.own))
Depth(C, recv, own) == IF recv = own THEN 0 ELSE CHOOSE d \in 1..Len(Ups(C, recv)) : Ups(C, recv)[d] = own
(* the chosen candidate: number, or 0 when none or several are best *)
Pick(C, o) ==                \* a function name given where a function type is expected denotes the overload of exactly that type
  LET n == Len(C.funs)
      ok == {x \in 1..n : Ptypes(C.funs[x]) = [q \in 1..Len(o.args) |-> o.args[q].t]}
  IN IF ok = {} THEN [id |-> 0, ts |-> <<>>, as |-> <<>>] ELSE LET x == CHOOSE x \in ok : TRUE IN [id |-> x, ts |-> Ptypes(C.funs[x]), as |-> o.args]
Choose(C, o) == IF o.val = 1 THEN Pick(C, o) ELSE
  LET n == Len(C.funs)
      R == [x \in 1..n |-> IF Visible(C, o, C.funs[x]) THEN Rate(C, C.funs[x], o.args) ELSE [r |-> NO, ts |-> <<>>, as |-> <<>>]]
      \* a method of a base class is not visible behind one of the same parameter types in a derived class
      hid(x) == o.recv # "" /\ \E y \in 1..n : y # x /\ Visible(C, o, C.funs[y]) /\ Visible(C, o, C.funs[x]) /\ Depth(C, o.recv, C.funs[y].own) < Depth(C, o.recv, C.funs[x].own)
                               /\ \/ ~C.funs[x].gen /\ Ptypes(C.funs[y]) = Ptypes(C.funs[x])
                                  \/ R[y].r # NO /\ R[y].r = R[x].r /\ R[y].ts = R[x].ts
      live == {x \in 1..n : R[x].r # NO /\ ~hid(x)}
      least == {x \in live : \A y \in live : R[x].r <= R[y].r}
      best == IF \E x \in least : ~C.funs[x].gen THEN {x \in least : ~C.funs[x].gen} ELSE least     \* a generic one has to be better
  IN IF best # {} /\ \A x, y \in best : x = y THEN LET x == CHOOSE x \in best : TRUE IN [id |-> x, ts |-> R[x].ts, as |-> R[x].as] ELSE [id |-> 0, ts |-> <<>>, as |-> <<>>]

(* what the body of the chosen function shows: the code of every parameter type and the value in it *)
NumOf(C, a, p) == IF a.t = "$set" THEN (IF p = "int ref(int)" THEN 54 ELSE 55) ELSE IF p = "bool" /\ K(C, a.t) = "n" THEN (IF a.n = 0 THEN 0 ELSE 1) ELSE a.n
DynCode(C, a) == IF a.t = "nullptr" THEN 0 ELSE IF K(C, a.t) \in {"r", "ar"} THEN C.types[a.dyn].code ELSE C.types[a.t].code
RECURSIVE Packed(_, _, _)
Packed(C, ps, q) == IF q > Len(ps) THEN <<>> ELSE <<<<"i", IF K(C, ps[q].t) = "a" THEN C.types[Decay(C, ps[q].t)].code ELSE DynCode(C, ps[q])>>, <<"i", ps[q].n>>>> \o Packed(C, ps, q + 1)
RECURSIVE Shown(_, _, _, _)
Shown(C, ts, as, q) ==
  IF q > Len(ts) THEN <<>>
  ELSE (IF ts[q] = "auto ref[]" THEN <<<<"i", Len(as[q].pack)>>>> \o Packed(C, as[q].pack, 1)
        ELSE IF ts[q] = "auto ref" THEN <<<<"i", DynCode(C, as[q])>>, <<"i", as[q].n>>>>
        ELSE <<<<"i", C.types[ts[q]].code>>, <<"i", NumOf(C, as[q], ts[q])>>>>) \o Shown(C, ts, as, q + 1)
(* a reference to a base class given for a derived one has to refer to an object of that class *)
Down(C, a, p) == K(C, p) = "r" /\ K(C, a.t) = "r" /\ K(C, Of(C, p)) = "c" /\ Of(C, p) # Of(C, a.t) /\ Derived(C, Of(C, p), Of(C, a.t)) /\ a.dyn # Of(C, p) /\ ~Derived(C, a.dyn, Of(C, p))

Start(x) == x
Inv(C) == \A x \in 1..Len(C.funs) : Rate(C, C.funs[x], <<>>).r >= NO
Apply(C, o, r) ==
  LET w == Choose(C, o)
      exp == IF w.id = 0 THEN <<<<"rejected", 0>>>>
             ELSE IF \E q \in 1..Len(w.ts) : Down(C, w.as[q], w.ts[q]) THEN <<<<"i", 1000>>, <<"fail", 0>>>>
             ELSE <<<<"i", 1000>>, <<"i", w.id>>>> \o Shown(C, w.ts, w.as, 1) \o <<<<"i", 1001>>>>
  IN [ok |-> r = exp, exp |-> exp, s |-> C]
=============================================================================
