-------------------------------- MODULE Debug --------------------------------
(***************************************************************************)
(* The debugger. A program is a tree of statements, one to a line; it      *)
(* visits lines at call depths and performs events (Sem). At the level of  *)
(* instructions a run is a sequence of steps [instruction, depth] with the *)
(* events between them; the sequence recorded with a breakpoint at every   *)
(* instruction has to be a refinement of Sem (Refines).                    *)
(*                                                                         *)
(* Marks are permanent breakpoints, one-time breakpoints and the marks of  *)
(* step commands. Control that reaches a marked instruction stops: the     *)
(* callback may set and remove marks and gives a response. A step mark     *)
(* counts only in calls that are no deeper than the place stepped to.      *)
(*   go     - no further mark                                              *)
(*   into   - a mark at the next instruction                               *)
(*   step   - a mark at the next instruction of this call, or of the caller*)
(*            after a return                                               *)
(*   out    - a mark at the next instruction of the caller                 *)
(*   stop   - the run ends                                                 *)
(* An instruction carries one mark: setting a second one is refused. Marks *)
(* of steps end with the run.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max(a, b) == IF a > b THEN a ELSE b

(* meaning of the statements b with parameter x at depth d: [q, c], c is "" or how it ended early *)
RECURSIVE Ex(_, _, _, _), Rep(_, _, _, _, _)
Ex(P, b, x, d) ==
  IF b = <<>> THEN [q |-> <<>>, c |-> ""]
  ELSE LET t == b[1]
           V == <<"v", t.l, d>>
           r == CASE t.k = "ev" -> [q |-> <<V, <<"i", t.l>>>>, c |-> ""]
                  [] t.k \in {"call", "rec"} -> (LET y == Ex(P, P.fs[t.f], IF t.k = "rec" THEN x - 1 ELSE t.x, d + 1) IN [q |-> <<V>> \o y.q, c |-> IF y.c = "fault" THEN "fault" ELSE ""])
                  [] t.k = "if" -> Ex(P, IF x > t.x THEN t.b ELSE t.e, x, d)
                  [] t.k = "loop" -> Rep(P, t, t.x, x, d)
                  [] t.k = "ret" -> [q |-> <<>>, c |-> IF x > t.x THEN "ret" ELSE ""]
                  [] t.k = "host" -> (LET y == Ex(P, t.b, x, d + 1) IN [q |-> <<V>> \o y.q, c |-> y.c])      \* the host calls back a function with this body
                  [] t.k = "fault" -> [q |-> <<V>>, c |-> "fault"]
       IN IF r.c # "" THEN r ELSE LET y == Ex(P, Tail(b), x, d) IN [q |-> r.q \o y.q, c |-> y.c]
Rep(P, t, n, x, d) ==
  IF n = 0 THEN [q |-> <<>>, c |-> ""]
  ELSE LET r == Ex(P, t.b, x, d) IN IF r.c # "" THEN r ELSE LET y == Rep(P, t, n - 1, x, d) IN [q |-> r.q \o y.q, c |-> y.c]
\* en: the entry, <<>> for the program or <<function, argument>>
Sem(P, en) == LET r == IF en = <<>> THEN Ex(P, P.g, P.x, 1) ELSE [Ex(P, P.fs[en[1]], en[2], 1) EXCEPT !.c = IF @ = "ret" THEN "" ELSE @] IN Append(r.q, IF r.c = "fault" THEN <<"fail", "fault">> ELSE <<"r", "done">>)
Events(q) == SelectSeq(q, LAMBDA t : t[1] # "v")

(* first instructions of the lines, as a sequence of <<line, instruction>> *)
At(first, l) == LET s == {x \in 1..Len(first) : first[x][1] = l} IN IF s = {} THEN -1 ELSE first[CHOOSE x \in s : TRUE][2]
RECURSIVE Refined(_, _, _, _)
Refined(T_, F, i_, acc) ==            \* F: instruction -> line, for the lines of the program
  IF i_ > Len(T_) THEN acc
  ELSE LET t == T_[i_] IN
       Refined(T_, F, i_ + 1, IF t[1] # "b" THEN Append(acc, t) ELSE IF t[2] \in DOMAIN F THEN Append(acc, <<"v", F[t[2]], t[3]>>) ELSE acc)
LinesOf(P, first) == LET s == {x \in 1..Len(first) : first[x][1] \in {P.ls[y] : y \in 1..Len(P.ls)}} IN [n \in {first[x][2] : x \in s} |-> first[CHOOSE x \in s : first[x][2] = n][1]]

(* marks *)
Marked(m, n) == n \in m.perm \/ n \in m.once \/ n \in DOMAIN m.arm
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Remove(m, n) == [perm |-> m.perm \ {n}, once |-> m.once \ {n}, arm |-> Without(m.arm, n)]
Clear(m) == [perm |-> {}, once |-> {}, arm |-> <<>>]
\* k: add, one, del, clear; [m, r]
Mark(m, k, n) ==
  CASE k = "clear" -> [m |-> Clear(m), r |-> 1]
    [] n = -1 -> [m |-> m, r |-> -1]                 \* the line has no code (it is never reached)
    [] k = "del" -> [m |-> Remove(m, n), r |-> IF Marked(m, n) THEN 1 ELSE 0]
    [] Marked(m, n) -> [m |-> m, r |-> 0]
    [] k = "add" -> [m |-> [m EXCEPT !.perm = @ \cup {n}], r |-> 1]
    [] k = "one" -> [m |-> [m EXCEPT !.once = @ \cup {n}], r |-> 1]
Arm(m, n, d) == IF n \in m.perm \/ n \in m.once THEN m
                ELSE [m EXCEPT !.arm = (n :> (IF n \in DOMAIN m.arm THEN Max(m.arm[n], d) ELSE d)) @@ m.arm]

(* next instruction after position p whose depth is at most d, 0 if there is none *)
RECURSIVE Later(_, _, _)
Later(q, p, d) == IF p > Len(q) THEN 0 ELSE IF q[p][1] = "b" /\ q[p][3] <= d THEN p ELSE Later(q, p + 1, d)

RECURSIVE Acts(_, _, _, _, _)          \* what the callback does at instruction n: [m, out, gone]
Acts(first, a, n, m, acc) ==
  IF a = <<>> THEN [m |-> m, out |-> acc.out, gone |-> acc.gone]
  ELSE LET k == a[1][1]  x == IF k = "clear" THEN 0 ELSE At(first, a[1][2])  r == Mark(m, k, x)
       IN Acts(first, Tail(a), n, r.m, [out |-> Append(acc.out, <<"a", r.r>>), gone |-> acc.gone \/ k = "clear" \/ (k = "del" /\ x = n)])
RECURSIVE Go(_, _, _, _, _, _)         \* recorded run q from position p, marks m, script sc: [m, out]
Go(first, q, p, m, sc, out) ==
  IF p > Len(q) THEN [m |-> m, out |-> out]
  ELSE LET t == q[p] IN
    IF t[1] # "b" THEN Go(first, q, p + 1, m, sc, Append(out, t))
    ELSE LET n == t[2]  d == t[3] IN
      IF ~(n \in m.perm \/ n \in m.once \/ (n \in DOMAIN m.arm /\ d <= m.arm[n])) THEN Go(first, q, p + 1, m, sc, out)
      ELSE LET r == IF sc = <<>> THEN <<<<>>, "go">> ELSE sc[1]
               a == Acts(first, r[1], n, m, [out |-> Append(out, t), gone |-> FALSE])
               m2 == IF a.gone \/ n \in a.m.perm THEN a.m ELSE Remove(a.m, n)
               z == CASE r[2] = "into" -> Later(q, p + 1, 1000000) [] r[2] = "step" -> Later(q, p + 1, d) [] r[2] = "out" -> Later(q, p + 1, d - 1) [] OTHER -> 0
               m3 == IF z = 0 THEN m2 ELSE Arm(m2, q[z][2], q[z][3])
           IN IF r[2] = "stop" THEN [m |-> m2, out |-> Append(a.out, <<"fail", "stop">>)]
              ELSE Go(first, q, p + 1, m3, IF sc = <<>> THEN sc ELSE Tail(sc), a.out)

Start(x) == [P |-> x, first |-> <<>>, q |-> <<>>, en |-> <<>>, m |-> Clear(0)]
Res(ok, exp, s) == [ok |-> ok, exp |-> exp, s |-> s]
Apply(s, o, r) ==
  LET k == o[1] IN
  CASE k = "plain" -> LET e == Events(Sem(s.P, <<>>)) IN Res(r = e, e, s)
    [] k = "lines" -> LET v == {t \in {Sem(s.P, <<>>)[y] : y \in 1..Len(Sem(s.P, <<>>))} : t[1] = "v" /\ At(r, t[2]) < 0} IN Res(v = {}, <<"an instruction for", v>>, [s EXCEPT !.first = r])
    [] k = "code" -> LET e == Sem(s.P, o[2]) IN Res(Refined(r, LinesOf(s.P, s.first), 1, <<>>) = e, e, [s EXCEPT !.q = r, !.en = o[2]])
    [] k \in {"add", "one", "del", "clear"} -> LET a == Mark(s.m, k, IF k = "clear" THEN 0 ELSE At(s.first, o[2])) e == <<<<"a", a.r>>>> IN Res(r = e, e, [s EXCEPT !.m = a.m])
    [] k = "rel" -> IF Len(r) # 1 \/ r[1][1] # "x" THEN Res(FALSE, "an instruction", s)
                    ELSE LET a == Mark(s.m, o[2], r[1][2]) e == <<<<"x", r[1][2], a.r>>>> IN Res(r = e, e, [s EXCEPT !.m = a.m])
    [] k = "run" -> LET g == Go(s.first, s.q, 1, s.m, o[2], <<>>) IN Res(r = g.out, g.out, [s EXCEPT !.m = [g.m EXCEPT !.arm = <<>>]])
(* a one-time breakpoint that was hit is gone, no instruction carries two marks, step marks do not outlive the run *)
Inv(s) == s.m.perm \cap s.m.once = {} /\ s.m.arm = <<>>
==============================================================================
