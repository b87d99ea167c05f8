----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The abstract data types behind std.vector, std.list, std.hashmap,       *)
(* std.event and std.range and their operations. A result is the sequence  *)
(* of observed <<kind, value>> tokens; an error is the single token        *)
(* <<"m", 0>>. Elements are small integers.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

I(n) == <<"i", n>>
Ints(q) == [k \in 1..Len(q) |-> I(q[k])]
Err == <<<<"m", 0>>>>
Bool01(b) == IF b THEN 1 ELSE 0
RECURSIVE SumS(_, _), MinS(_, _), MaxS(_, _), FoldL(_, _, _), FoldR(_, _, _), IndexOf(_, _, _), Count(_, _)
SumS(q, k) == IF k > Len(q) THEN 0 ELSE q[k] + SumS(q, k + 1)
MinS(q, k) == IF k = Len(q) THEN q[k] ELSE LET r == MinS(q, k + 1) IN IF q[k] < r THEN q[k] ELSE r
MaxS(q, k) == IF k = Len(q) THEN q[k] ELSE LET r == MaxS(q, k + 1) IN IF q[k] > r THEN q[k] ELSE r
\* the folding functions of the programs: (a, b) -> (a * 3 + b) % 1000 on non-negative values
Fold(a, b) == (a * 3 + b) % 1000
FoldL(q, k, acc) == IF k > Len(q) THEN acc ELSE FoldL(q, k + 1, Fold(acc, q[k]))
FoldR(q, k, acc) == IF k < 1 THEN acc ELSE FoldR(q, k - 1, Fold(acc, q[k]))
IndexOf(q, x, k) == IF k > Len(q) THEN 0 ELSE IF q[k] = x THEN k ELSE IndexOf(q, x, k + 1)
Odd(x) == x % 2 = 1
Count(q, k) == IF k > Len(q) THEN 0 ELSE Bool01(Odd(q[k])) + Count(q, k + 1)
Range(q) == {q[k] : k \in 1..Len(q)}
Occ(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
Perm(p, q) == Len(p) = Len(q) /\ \A x \in Range(p) \cup Range(q) : Occ(p, x) = Occ(q, x)
Sorted(q, up) == \A k \in 1..Len(q) - 1 : IF up THEN q[k] <= q[k + 1] ELSE q[k] >= q[k + 1]
Remove(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Insert(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
Mapped(q) == [k \in 1..Len(q) |-> q[k] * 2 + 1]
Filtered(q) == SelectSeq(q, Odd)
Exactly(r, e, s) == [ok |-> r = e, exp |-> e, s |-> s]

------------------------------------------------------------------------------
(* vector: a sequence. After every operation size and contents are shown *)
VecSee(q) == <<I(Len(q))>> \o Ints(q)
Vec(q, o, r) ==
  LET n == Len(q)
      Eff(e, q2) == Exactly(r, e \o VecSee(q2), q2)
      Bad == Eff(Err, q)
      Val(x) == Eff(<<I(x)>>, q)
  IN CASE o[1] = "push" -> Eff(<<>>, Append(q, o[2]))
       [] o[1] = "pop" -> IF n = 0 THEN Bad ELSE Eff(<<>>, SubSeq(q, 1, n - 1))
       [] o[1] = "back" -> IF n = 0 THEN Bad ELSE Val(q[n])
       [] o[1] = "front" -> IF n = 0 THEN Bad ELSE Val(q[1])
       [] o[1] = "get" -> IF o[2] < 0 \/ o[2] >= n THEN Bad ELSE Val(q[o[2] + 1])
       [] o[1] = "set" -> IF o[2] < 0 \/ o[2] >= n THEN Bad ELSE Eff(<<>>, [q EXCEPT ![o[2] + 1] = o[3]])
       [] o[1] = "setback" -> IF n = 0 THEN Bad ELSE Eff(<<>>, [q EXCEPT ![n] = o[2]])
       [] o[1] = "resize" -> IF o[2] < 0 THEN Bad ELSE Eff(<<>>, [k \in 1..o[2] |-> IF k <= n THEN q[k] ELSE 0])
       [] o[1] = "reserve" -> IF o[2] < 0 THEN Bad ELSE Eff(<<I(1)>>, q)            \* 1: capacity is at least that
       [] o[1] = "clear" -> Eff(<<>>, <<>>)
       [] o[1] = "destroy" -> Eff(<<>>, <<>>)
       [] o[1] = "iter" -> Eff(Ints(q), q)
       [] o[1] = "iterset" -> Eff(<<>>, [k \in 1..n |-> q[k] + 1])                   \* for(x in v) x = x + 1
       [] o[1] = "sum" -> Val(SumS(q, 1) * 2 + n)                                    \* of 2x+1
       [] o[1] = "average" -> IF n = 0 THEN Bad ELSE Val((SumS(q, 1) * 2 + n) \div n)
       [] o[1] = "min" -> Val(MinS(q, 1))
       [] o[1] = "max" -> Val(MaxS(q, 1))
       [] o[1] = "minf" -> Val(-MaxS(q, 1))
       [] o[1] = "maxf" -> Val(-MinS(q, 1))
       [] o[1] = "count" -> Val(Count(q, 1))
       [] o[1] = "all" -> Val(Bool01(n > 0 /\ Count(q, 1) = n))
       [] o[1] = "any" -> Val(Bool01(Count(q, 1) > 0))
       [] o[1] = "in" -> Val(Bool01(IndexOf(q, o[2], 1) # 0))
       [] o[1] \in {"sortup", "sortdown"} ->
            LET p == [k \in 1..Len(r) - 1 |-> r[k + 1][2]]
            IN [ok |-> Len(r) = n + 1 /\ r[1] = I(n) /\ (\A k \in 2..Len(r) : r[k][1] = "i") /\ Perm(p, q) /\ Sorted(p, o[1] = "sortup"), exp |-> <<"ordered", q>>, s |-> p]
       [] o[1] \in {"fill", "assign"} -> Eff(<<>>, o[2])
       [] o[1] = "mult" -> Eff(<<>>, q \o o[2])
       [] o[1] = "genfill" -> Eff(<<>>, [k \in 1..o[2] |-> k + 10])
       [] o[1] = "genmult" -> Eff(<<>>, q \o [k \in 1..o[2] |-> k + 10])
       [] o[1] = "foldl" -> Val(FoldL(q, 2, q[1]))
       [] o[1] = "foldr" -> Val(FoldR(q, n - 1, q[n]))
       [] o[1] = "map" -> Eff(Ints(Mapped(q)), q)
       [] o[1] = "filter" -> Eff(Ints(Filtered(q)), q)
       [] o[1] = "slice" -> LET a == o[2]  b == o[3]  x == o[4]
                            IN IF a < 0 \/ b < a \/ a >= n \/ x < 0 \/ x > b - a \/ a + x >= n THEN Bad ELSE Val(q[a + x + 1])

------------------------------------------------------------------------------
(* two lists of nodes with handles: l[1], l[2] sequences of node numbers,  *)
(* e[node] element, h[slot] handle (0: null)                               *)
LS == [l |-> <<<<>>, <<>>>>, e |-> <<>>, h |-> [k \in 1..8 |-> 0]]
Elems(s, w) == [k \in 1..Len(s.l[w]) |-> s.e[s.l[w][k]]]
Back(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
\* shown: both lists forwards, and backwards from the last node
ListSee(s) == <<I(Bool01(s.l[1] = <<>>)), I(Bool01(s.l[2] = <<>>))>> \o Ints(Elems(s, 1)) \o <<I(-1)>> \o Ints(Back(Elems(s, 1))) \o <<I(-2)>> \o Ints(Elems(s, 2)) \o <<I(-1)>> \o Ints(Back(Elems(s, 2)))
Lst(s, o, r) ==
  LET w == o[2]  q == s.l[w]  n == Len(q)  new == Len(s.e) + 1
      Eff(e, t) == Exactly(r, e \o ListSee(t), t)
      Bad == Eff(Err, s)
      Val(x) == Eff(<<I(x)>>, s)
      Add(q2, x) == [s EXCEPT !.l[w] = q2, !.e = Append(s.e, x)]
      Cut(q2) == [s EXCEPT !.l[w] = q2]
      Hnd(slot, nd) == LET t == [s EXCEPT !.h[slot] = nd] IN Eff(IF nd = 0 THEN <<I(0)>> ELSE <<I(1), I(s.e[nd])>>, t)
      at(slot) == IndexOf(q, s.h[slot], 1)          \* 0: null, removed, or in the other list
      el == Elems(s, w)
  IN CASE o[1] = "pushb" -> Eff(<<>>, Add(Append(q, new), o[3]))
       [] o[1] = "pushf" -> Eff(<<>>, Add(<<new>> \o q, o[3]))
       [] o[1] = "popb" -> IF n = 0 THEN Bad ELSE Eff(<<>>, Cut(SubSeq(q, 1, n - 1)))
       [] o[1] = "popf" -> IF n = 0 THEN Bad ELSE Eff(<<>>, Cut(SubSeq(q, 2, n)))
       [] o[1] = "insert" -> IF at(o[3]) = 0 THEN Bad ELSE Eff(<<>>, Add(Insert(q, at(o[3]), new), o[4]))
       [] o[1] = "erase" -> IF at(o[3]) = 0 THEN Bad ELSE Eff(<<>>, Cut(Remove(q, at(o[3]))))
       [] o[1] = "clear" -> Eff(<<>>, [Cut(<<>>) EXCEPT !.h = [k \in 1..8 |-> IF s.h[k] # 0 /\ IndexOf(q, s.h[k], 1) # 0 THEN 0 ELSE s.h[k]]])  \* the program drops its handles of that list
       [] o[1] = "find" -> LET k == IndexOf(el, o[4], 1) IN Hnd(o[3], IF k = 0 THEN 0 ELSE q[k])
       [] o[1] = "begin" -> Hnd(o[3], IF n = 0 THEN 0 ELSE q[1])
       [] o[1] = "end" -> Hnd(o[3], IF n = 0 THEN 0 ELSE q[n])
       [] o[1] = "next" -> IF at(o[3]) = 0 THEN Val(7) ELSE Hnd(o[3], IF at(o[3]) = n THEN 0 ELSE q[at(o[3]) + 1])
       [] o[1] = "prev" -> IF at(o[3]) = 0 THEN Val(7) ELSE Hnd(o[3], IF at(o[3]) = 1 THEN 0 ELSE q[at(o[3]) - 1])
       [] o[1] = "value" -> IF s.h[o[3]] = 0 THEN Val(7) ELSE Val(s.e[s.h[o[3]]])
       [] o[1] = "setvalue" -> IF s.h[o[3]] = 0 THEN Val(7) ELSE Eff(<<>>, [s EXCEPT !.e[s.h[o[3]]] = o[4]])
       [] o[1] = "back" -> IF n = 0 THEN Bad ELSE Val(el[n])
       [] o[1] = "front" -> IF n = 0 THEN Bad ELSE Val(el[1])
       [] o[1] = "setfront" -> IF n = 0 THEN Bad ELSE Eff(<<>>, [s EXCEPT !.e[q[1]] = o[3]])
       [] o[1] = "iter" -> Eff(Ints(el), s)
       [] o[1] = "iterset" -> Eff(<<>>, [s EXCEPT !.e = [k \in 1..Len(s.e) |-> IF k \in Range(q) THEN s.e[k] + 1 ELSE s.e[k]]])
       [] o[1] = "sum" -> Val(SumS(el, 1) * 2 + n)
       [] o[1] = "average" -> IF n = 0 THEN Bad ELSE Val((SumS(el, 1) * 2 + n) \div n)
       [] o[1] = "min" -> IF n = 0 THEN Bad ELSE Val(MinS(el, 1))
       [] o[1] = "max" -> IF n = 0 THEN Bad ELSE Val(MaxS(el, 1))
       [] o[1] = "minf" -> IF n = 0 THEN Bad ELSE Val(-MaxS(el, 1))
       [] o[1] = "maxf" -> IF n = 0 THEN Bad ELSE Val(-MinS(el, 1))
       [] o[1] = "count" -> Val(Count(el, 1))
       [] o[1] = "all" -> Val(Bool01(n > 0 /\ Count(el, 1) = n))
       [] o[1] = "any" -> Val(Bool01(Count(el, 1) > 0))
       [] o[1] = "in" -> Val(Bool01(IndexOf(el, o[3], 1) # 0))
ListInv(s) == \A w \in 1..2 : \A a, b \in 1..Len(s.l[w]) : a # b => s.l[w][a] # s.l[w][b]

------------------------------------------------------------------------------
(* hash map: sequence m of <<present, value>> for the keys 1..n of the program *)
HSee(m) == [k \in 1..Len(m) |-> I(IF m[k][1] = 1 THEN m[k][2] ELSE -999)]
HMap(m, o, r) ==
  LET Eff(e, t) == Exactly(r, e \o HSee(t), t)
      k == o[2]
      here == m[k][1] = 1
      cur == IF here THEN m[k][2] ELSE 0
  IN CASE o[1] = "set" -> Eff(<<>>, [m EXCEPT ![k] = <<1, o[3]>>])
       [] o[1] = "add" -> Eff(<<>>, [m EXCEPT ![k] = <<1, cur + o[3]>>])
       [] o[1] = "read" -> Eff(<<I(cur)>>, [m EXCEPT ![k] = <<1, cur>>])
       [] o[1] = "find" -> Eff(IF here THEN <<I(1), I(cur)>> ELSE <<I(0)>>, m)
       [] o[1] = "store" -> Eff(IF here THEN <<I(1)>> ELSE <<I(0)>>, IF here THEN [m EXCEPT ![k] = <<1, o[3]>>] ELSE m)   \* through the found reference
       [] o[1] = "remove" -> IF here THEN Eff(<<>>, [m EXCEPT ![k] = <<0, 0>>]) ELSE Eff(Err, m)
       [] o[1] = "clear" -> Eff(<<>>, [x \in 1..Len(m) |-> <<0, 0>>])
       [] o[1] = "many" -> Eff(<<I(o[3])>>, m)        \* o[3] other keys are added, found and removed

------------------------------------------------------------------------------
(* event: handlers in the order of attachment, each at most once *)
ESee(q) == <<I(Bool01(q # <<>>))>>
Evt(q, o, r) ==
  LET Eff(e, t) == Exactly(r, e \o ESee(t), t)
  IN CASE o[1] \in {"attach", "plus"} -> Eff(<<>>, IF IndexOf(q, o[2], 1) = 0 THEN Append(q, o[2]) ELSE q)
       [] o[1] \in {"detach", "minus"} -> Eff(<<>>, IF IndexOf(q, o[2], 1) = 0 THEN q ELSE Remove(q, IndexOf(q, o[2], 1)))
       [] o[1] = "clear" -> Eff(<<>>, <<>>)
       [] o[1] = "fire" -> Eff([k \in 1..Len(q) |-> I(q[k] * 1000 + o[2])], q)

------------------------------------------------------------------------------
(* ranges: every number from the first to the last inclusive, in steps *)
RECURSIVE RangeSeq(_, _, _)
RangeSeq(a, b, st) == IF a > b THEN <<>> ELSE <<a>> \o RangeSeq(a + st, b, st)
Rng(q, o, r) ==
  CASE o[1] = "range" -> Exactly(r, Ints(RangeSeq(o[2], o[3], o[4])), q)
    [] o[1] = "nested" -> LET a == RangeSeq(o[2], o[3], 1) IN Exactly(r, <<I(Len(a) * Len(a)), I(SumS(a, 1) * Len(a))>>, q)

------------------------------------------------------------------------------
(* auto[] helpers and arrays: q the contents, the size is shown too *)
Arrs(q, o, r) ==
  LET n == Len(q)
      Eff(e, t) == Exactly(r, e \o VecSee(t), t)
      Bad == Eff(Err, q)
      Val(x) == Eff(<<I(x)>>, q)
  IN CASE o[1] = "new" -> Eff(<<>>, [k \in 1..o[2] |-> 0])
       [] o[1] = "set" -> IF o[2] < 0 \/ o[2] >= n THEN Bad ELSE Eff(<<>>, [q EXCEPT ![o[2] + 1] = o[3]])
       [] o[1] = "get" -> IF o[2] < 0 \/ o[2] >= n THEN Bad ELSE Val(q[o[2] + 1])
       [] o[1] = "copyin" -> IF Len(o[2]) > n THEN Bad ELSE Eff(<<>>, o[2] \o SubSeq(q, Len(o[2]) + 1, n))  \* array_copy(array, literal)
       [] o[1] = "dup" -> Eff(Ints(q), q)                                             \* a duplicate, then the original is changed and restored
       [] o[1] = "in" -> Val(Bool01(IndexOf(q, o[2], 1) # 0))
       [] o[1] = "map" -> Eff(Ints(Mapped(q)), q)
       [] o[1] = "filter" -> Eff(<<I(Len(Filtered(q)))>> \o Ints(Filtered(q)), q)
       [] o[1] = "foldl" -> IF n = 0 THEN Bad ELSE Val(FoldL(q, 2, q[1]))
       [] o[1] = "foldr" -> IF n = 0 THEN Bad ELSE Val(FoldR(q, n - 1, q[n]))
       [] o[1] = "comp" -> Eff(Ints(Filtered(q)), q)                                  \* list comprehension
       [] o[1] \in {"sortup", "sortdown"} ->
            LET p == [k \in 1..Len(r) - 1 |-> r[k + 1][2]]
            IN [ok |-> Len(r) = n + 1 /\ r[1] = I(n) /\ (\A k \in 2..Len(r) : r[k][1] = "i") /\ Perm(p, q) /\ Sorted(p, o[1] = "sortup"), exp |-> <<"ordered", q>>, s |-> p]
       [] o[1] = "aset" ->                                                            \* auto[]: set grows the array, force_size shrinks it
            Eff(<<>>, [k \in 1..(IF o[2] >= n THEN o[2] + 1 ELSE n) |-> IF k = o[2] + 1 THEN o[3] ELSE IF k <= n THEN q[k] ELSE 0])
       [] o[1] = "bind" -> Val(o[2] * 10 + o[3])

Start(x) == [kind |-> x[1], s |-> CASE x[1] = "list" -> LS
                                    [] x[1] = "map" -> [k \in 1..x[2] |-> <<0, 0>>]
                                    [] OTHER -> <<>>]
Apply(st, o, r) ==
  LET a == CASE st.kind = "vector" -> Vec(st.s, o, r)
             [] st.kind = "list" -> Lst(st.s, o, r)
             [] st.kind = "map" -> HMap(st.s, o, r)
             [] st.kind = "event" -> Evt(st.s, o, r)
             [] st.kind = "range" -> Rng(st.s, o, r)
             [] st.kind = "array" -> Arrs(st.s, o, r)
  IN [a EXCEPT !.s = [st EXCEPT !.s = a.s]]
Inv(st) == st.kind = "list" => ListInv(st.s)
=============================================================================
