-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts of a program: char arrays with the C-like functions, the string   *)
(* class of std.string as a sequence of characters, numbers to and from    *)
(* text (exactly, on decimal digit sequences), sorting and the functions   *)
(* of std.algorithm. Characters are their codes. A result is a sequence of *)
(* tokens; <<"m", 0>> is an error.                                         *)
(***************************************************************************)
EXTENDS Words, FiniteSets, TLC
I(n) == <<"i", n>>
Ints(q) == [k \in 1..Len(q) |-> I(q[k])]
Err == <<<<"m", 0>>>>
B01(b) == IF b THEN 1 ELSE 0
Range(q) == {q[k] : k \in 1..Len(q)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Sub(q, a, b) == SubSeq(q, a, b)                                \* empty when b < a
\* ---------------------------------------------------------------- char arrays
Term(a) == a # <<>> /\ a[Len(a)] = 0
CLen(a) == IF \E k \in 1..Len(a) : a[k] = 0 THEN SetMin({k \in 1..Len(a) : a[k] = 0}) - 1 ELSE -1
CStr(a) == Sub(a, 1, CLen(a))                                  \* characters before the first zero
Cat(a, b) == IF b = <<>> THEN a ELSE IF Term(a) THEN Sub(a, 1, Len(a) - 1) \o b ELSE a \o b
At(t, p, k) == k + Len(p) - 1 <= Len(t) /\ \A x \in 1..Len(p) : t[k + x - 1] = p[x]
Find(t, p, from) == LET S == {k \in from..Len(t) + 1 : At(t, p, k)} IN IF S = {} THEN 0 ELSE SetMin(S)       \* positions from 1, 0: none
RFind(t, p, from) == LET S == {k \in 1..from : At(t, p, k)} IN IF S = {} THEN 0 ELSE SetMax(S)
RECURSIVE Cmp(_, _, _)
Cmp(a, b, k) == IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE -1) ELSE IF k > Len(b) THEN 1
                ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE Cmp(a, b, k + 1)
Strip(b) == IF Term(b) THEN CStr(b) ELSE b                     \* what a string object takes from a char array
\* ---------------------------------------------------------------- decimal numbers
\* digits: most significant first, values 0..9; limbs: least significant first, base 10000
RECURSIVE NoLead(_), MulAdd(_, _, _), Times(_, _, _), LimbDigits(_, _)
NoLead(d) == IF Len(d) > 1 /\ d[1] = 0 THEN NoLead(Tail(d)) ELSE d
MulAdd(l, k, c) == IF l = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10000>> \o MulAdd(<<>>, k, c \div 10000))
                   ELSE LET x == l[1] * k + c IN <<x % 10000>> \o MulAdd(Tail(l), k, x \div 10000)
Times(l, k, n) == IF n = 0 THEN l ELSE IF n >= 4 THEN Times(MulAdd(l, k * k * k * k, 0), k, n - 4) ELSE Times(MulAdd(l, k, 0), k, n - 1)
Pad4(x) == <<x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10>>
LimbDigits(l, k) == IF k = 0 THEN <<>> ELSE Pad4(l[k]) \o LimbDigits(l, k - 1)
RECURSIVE Acc(_, _, _)
Acc(l, d, k) == IF k > Len(d) THEN l ELSE Acc(MulAdd(l, 10, d[k]), d, k + 1)
Limbs(d) == Acc(<<>>, d, 1)
Digits(l) == IF l = <<>> THEN <<0>> ELSE NoLead(LimbDigits(l, Len(l)))
Zeros(n) == [k \in 1..n |-> 0]
Chars(d) == [k \in 1..Len(d) |-> IF d[k] < 10 THEN d[k] + 48 ELSE d[k] + 87]
IsZero(d) == \A k \in 1..Len(d) : d[k] = 0
RECURSIVE DivDigits(_, _, _, _, _), ToBase(_, _)
DivDigits(d, b, k, r, q) == IF k > Len(d) THEN <<q, r>> ELSE LET x == r * 10 + d[k] IN DivDigits(d, b, k + 1, x % b, Append(q, x \div b))
ToBase(d, b) == LET x == DivDigits(d, b, 1, 0, <<>>) IN IF IsZero(x[1]) THEN <<x[2]>> ELSE Append(ToBase(NoLead(x[1]), b), x[2])
Text(neg, d, base) == (IF neg /\ ~IsZero(d) THEN <<45>> ELSE <<>>) \o Chars(ToBase(NoLead(d), base))
\* parsing: optional minus, then digits up to the first other character
RECURSIVE Lead(_, _), Long(_, _, _)
Lead(t, k) == IF k <= Len(t) /\ t[k] \in 48..57 THEN <<t[k] - 48>> \o Lead(t, k + 1) ELSE <<>>
Long(d, k, l) == IF k > Len(d) THEN l ELSE Long(d, k + 1, LAdd(LMul(l, OfInt(10)), OfInt(d[k])))
Parse(t) == LET neg == t # <<>> /\ t[1] = 45
                v == Long(Lead(t, IF neg THEN 2 ELSE 1), 1, L0)
            IN IF neg THEN LNeg(v) ELSE v
\* increment of a digit sequence; the result may be one longer
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] < 9 THEN Append(Sub(d, 1, Len(d) - 1), d[Len(d)] + 1) ELSE Append(Inc(Sub(d, 1, Len(d) - 1)), 0)
\* the first n digits of d, rounded to nearest, half to even
Cut(d, n) ==
  LET keep == Sub(d, 1, n)
      rest == Sub(d, n + 1, Len(d))
      odd == n > 0 /\ d[n] % 2 = 1
      up == rest # <<>> /\ (rest[1] > 5 \/ (rest[1] = 5 /\ (~IsZero(Tail(rest)) \/ odd)))
  IN IF n >= Len(d) THEN d \o Zeros(n - Len(d)) ELSE IF up THEN Inc(keep) ELSE keep
\* the digits of m * 2^e and how many of them follow the decimal point
Exact(m, e) == IF e >= 0 THEN <<Digits(Times(Limbs(m), 2, e)), 0>> ELSE <<Digits(Times(Limbs(m), 5, -e)), -e>>
Fixed(neg, m, e, p) ==
  LET x == Exact(m, e)
      d == IF Len(x[1]) <= x[2] THEN Zeros(x[2] + 1 - Len(x[1])) \o x[1] ELSE x[1]
      whole == Len(d) - x[2]
      c == Cut(d, whole + p)
      w == Len(c) - p
  IN (IF neg THEN <<45>> ELSE <<>>) \o Chars(Sub(c, 1, w)) \o (IF p = 0 THEN <<>> ELSE <<46>> \o Chars(Sub(c, w + 1, Len(c))))
ExpText(n) == LET a == AbsI(n) IN <<101, IF n < 0 THEN 45 ELSE 43>> \o (IF a < 10 THEN <<48, a + 48>> ELSE Chars(ToBase(Pad4(a), 10)))
Scientific(neg, m, e, p) ==
  LET x == Exact(m, e)
      z == IsZero(x[1])
      c == IF z THEN Zeros(p + 1) ELSE Cut(x[1], p + 1)
      x10 == IF z THEN 0 ELSE Len(x[1]) - 1 - x[2] + (IF Len(c) > p + 1 THEN 1 ELSE 0)
  IN (IF neg THEN <<45>> ELSE <<>>) \o Chars(Sub(c, 1, 1)) \o (IF p = 0 THEN <<>> ELSE <<46>> \o Chars(Sub(c, 2, p + 1))) \o ExpText(x10)
Inf(neg) == (IF neg THEN <<45>> ELSE <<>>) \o <<105, 110, 102>>
\* o: sign, digits of m, e (m = <<>>: infinity), precision
FText(neg, m, e, p0, sci) == LET p == IF p0 < 0 THEN 6 ELSE p0 IN
  IF m = <<>> THEN Inf(neg) ELSE IF sci THEN Scientific(neg, m, e, p) ELSE Fixed(neg, m, e, p)
\* a decimal d * 10^-f is the number nearest to m * 2^e: twice the distance is at most 2^e (half of it below when m is a power of two is not used)
Trim(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN Sub(l, 1, Len(l) - 1) ELSE l
RECURSIVE TrimAll(_), LCmp(_, _, _)
TrimAll(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN TrimAll(Trim(l)) ELSE l
LCmp(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE LCmp(a, b, k - 1)
Compare(a0, b0) == LET a == TrimAll(a0)
                       b == TrimAll(b0)
                   IN IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE LCmp(a, b, Len(a))
\* compares d * 10^x with (2m + j) * 2^(e-1), j in {-1, 0, 1}
Minus1(m) == LET RECURSIVE D(_)
                 D(d) == IF d[Len(d)] > 0 THEN Append(Sub(d, 1, Len(d) - 1), d[Len(d)] - 1) ELSE Append(D(Sub(d, 1, Len(d) - 1)), 9)
             IN D(m)
CmpTo(d, x, m, e, j) ==
  LET a == Limbs(d)
      b == IF j = 1 THEN MulAdd(MulAdd(Limbs(m), 2, 0), 1, 1) ELSE IF j = 0 THEN MulAdd(Limbs(m), 2, 0) ELSE MulAdd(MulAdd(Limbs(Minus1(m)), 2, 0), 1, 1)
      y == e - 1
      \* multiply both sides so that no negative power remains
      a2 == Times(Times(a, 10, IF x > 0 THEN x ELSE 0), 2, IF y < 0 THEN -y ELSE 0)
      b2 == Times(Times(b, 2, IF y > 0 THEN y ELSE 0), 10, IF x < 0 THEN -x ELSE 0)
  IN Compare(a2, b2)
\* ---------------------------------------------------------------- sorting
Key(x, how) == CASE how = "up" -> x [] how = "down" -> -x [] how = "mod7" -> x % 7 [] how = "half" -> x \div 2
Ordered(q, how) == \A k \in 1..Len(q) - 1 : Key(q[k], how) <= Key(q[k + 1], how)
Occ(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
Perm(p, q) == Len(p) = Len(q) /\ \A x \in Range(p) \cup Range(q) : Occ(p, x) = Occ(q, x)
RECURSIVE FoldL(_, _, _), FoldR(_, _, _)
FoldL(q, k, acc) == IF k > Len(q) THEN acc ELSE FoldL(q, k + 1, (acc * 3 + q[k]) % 1000)
FoldR(q, k, acc) == IF k < 1 THEN acc ELSE FoldR(q, k - 1, (acc * 3 + q[k]) % 1000)
\* ---------------------------------------------------------------- operations
ShowR(s, k) == <<I(Len(s.r[k]))>> \o Ints(s.r[k])
ShowT(s, k) == <<I(Len(s.t[k]))>> \o Ints(s.t[k])
Same(s, e) == [s |-> s, e |-> e]
Pos(k) == <<I(k - 1)>>                                          \* 0: none is shown as -1
FromEnd(s, t, off) == IF off < 0 \/ off >= Len(t) THEN Len(t) ELSE off + 1
StrArg(s, a) == IF a[1] = "t" THEN s.t[a[2]] ELSE IF a[1] = "r" THEN Strip(s.r[a[2]]) ELSE <<a[2]>>      \* a string, a char array or a character
Do(s, o) ==
  LET k == o[2] IN
  CASE o[1] = "lit" -> LET s2 == [s EXCEPT !.r[k] = Append(o[3], 0)] IN [s |-> s2, e |-> ShowR(s2, k)]
    [] o[1] = "arr" -> LET s2 == [s EXCEPT !.r[k] = o[3]] IN [s |-> s2, e |-> ShowR(s2, k)]
    [] o[1] = "cat" -> LET s2 == [s EXCEPT !.r[k] = Cat(s.r[o[3]], s.r[o[4]])] IN [s |-> s2, e |-> ShowR(s2, k)]
    [] o[1] = "add" -> LET s2 == [s EXCEPT !.r[k] = Cat(@, s.r[o[3]])] IN [s |-> s2, e |-> ShowR(s2, k)]
    [] o[1] = "eq" -> LET b == B01(s.r[k] = s.r[o[3]]) IN Same(s, <<I(b), I(1 - b)>>)
    [] o[1] = "strlen" -> Same(s, IF CLen(s.r[k]) < 0 THEN Err ELSE <<I(CLen(s.r[k]))>>)
    [] o[1] = "strstr" -> Same(s, IF ~Term(s.r[k]) \/ ~Term(s.r[o[3]]) THEN Err ELSE Pos(Find(CStr(s.r[k]), CStr(s.r[o[3]]), 1)))
    [] o[1] = "strchr" -> Same(s, IF ~Term(s.r[k]) THEN Err ELSE Pos(Find(Append(CStr(s.r[k]), 0), <<o[3]>>, 1)))
    [] o[1] = "strcmp" -> Same(s, IF ~Term(s.r[k]) \/ ~Term(s.r[o[3]]) THEN Err ELSE <<I(Cmp(CStr(s.r[k]), CStr(s.r[o[3]]), 1))>>)
    [] o[1] = "strcpy" -> LET a == s.r[k]
                              b == s.r[o[3]]
                          IN IF CLen(b) < 0 \/ CLen(b) >= Len(a) \/ a = <<>> THEN Same(s, Err)
                             ELSE LET s2 == [s EXCEPT !.r[k] = CStr(b) \o <<0>> \o Sub(a, CLen(b) + 2, Len(a))] IN [s |-> s2, e |-> <<I(CLen(b))>> \o ShowR(s2, k)]
    [] o[1] = "put" -> IF o[3] \notin 0..Len(s.r[k]) - 1 THEN Same(s, Err) ELSE LET s2 == [s EXCEPT !.r[k][o[3] + 1] = o[4]] IN [s |-> s2, e |-> ShowR(s2, k)]
    [] o[1] = "iter" -> Same(s, Ints(s.r[k]))
    [] o[1] = "copy" -> LET s2 == [s EXCEPT !.r[k] = s.r[o[3]]] IN [s |-> s2, e |-> ShowR(s2, k)]              \* duplicate
    \* string objects
    [] o[1] = "S.of" -> LET s2 == [s EXCEPT !.t[k] = StrArg(s, o[3])] IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.fill" -> IF o[3] < 0 THEN Same(s, Err) ELSE LET s2 == [s EXCEPT !.t[k] = [x \in 1..o[3] |-> o[4]]] IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.clear" -> LET s2 == [s EXCEPT !.t[k] = <<>>] IN [s |-> s2, e |-> ShowT(s2, k) \o <<I(1)>>]
    [] o[1] = "S.size" -> Same(s, <<I(Len(s.t[k])), I(Len(s.t[k])), I(B01(s.t[k] = <<>>))>>)
    [] o[1] = "S.at" -> Same(s, IF o[3] \in 0..Len(s.t[k]) - 1 THEN <<I(s.t[k][o[3] + 1])>> ELSE IF o[3] = Len(s.t[k]) THEN <<>> ELSE Err)   \* the program leaves out the position after the last
    [] o[1] = "S.put" -> IF o[3] \notin 0..Len(s.t[k]) THEN Same(s, Err) ELSE LET s2 == IF o[3] = Len(s.t[k]) THEN s ELSE [s EXCEPT !.t[k][o[3] + 1] = o[4]] IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.ends" -> Same(s, IF s.t[k] = <<>> THEN <<>> ELSE <<I(s.t[k][1]), I(s.t[k][Len(s.t[k])])>>)
    [] o[1] = "S.slice" -> \* s[a, b], both ends included
         IF o[4] \in 0..Len(s.t[k]) - 1 /\ o[5] \in o[4]..Len(s.t[k]) - 1
         THEN LET s2 == [s EXCEPT !.t[o[3]] = Sub(s.t[k], o[4] + 1, o[5] + 1)] IN [s |-> s2, e |-> ShowT(s2, o[3])] ELSE Same(s, Err)
    [] o[1] = "S.substr" -> \* o[3]: target, start >= 0, length (negative: all)
         LET n == Len(s.t[k]) - o[4]
             m == IF o[5] < 0 \/ o[5] > n THEN n ELSE o[5]
             s2 == [s EXCEPT !.t[o[3]] = Sub(s.t[k], o[4] + 1, o[4] + m)]
         IN [s |-> s2, e |-> ShowT(s2, o[3])]
    [] o[1] = "S.add" -> LET s2 == [s EXCEPT !.t[k] = @ \o StrArg(s, o[3])] IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.cat" -> LET s2 == [s EXCEPT !.t[k] = StrArg(s, o[3]) \o StrArg(s, o[4])] IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.insert" -> \* offset, string
         LET a == StrArg(s, o[4]) IN
         IF a # <<>> /\ o[3] \notin 0..Len(s.t[k]) THEN Same(s, Err)
         ELSE LET s2 == [s EXCEPT !.t[k] = IF a = <<>> THEN @ ELSE Sub(@, 1, o[3]) \o a \o Sub(@, o[3] + 1, Len(@))] IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.erase" -> \* offset, length
         IF o[3] \notin 0..Len(s.t[k]) THEN Same(s, Err)
         ELSE LET n == Len(s.t[k]) - o[3]
                  m == IF o[4] < 0 \/ o[4] > n THEN n ELSE o[4]
                  s2 == [s EXCEPT !.t[k] = Sub(@, 1, o[3]) \o Sub(@, o[3] + m + 1, Len(@))]
              IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.replace" -> \* offset, length, string
         IF o[3] \notin 0..Len(s.t[k]) THEN Same(s, Err)
         ELSE LET n == Len(s.t[k]) - o[3]
                  m == IF o[4] < 0 \/ o[4] > n THEN n ELSE o[4]
                  s2 == [s EXCEPT !.t[k] = Sub(@, 1, o[3]) \o StrArg(s, o[5]) \o Sub(@, o[3] + m + 1, Len(@))]
              IN [s |-> s2, e |-> ShowT(s2, k)]
    [] o[1] = "S.swap" -> LET s2 == [s EXCEPT !.t[k] = s.t[o[3]], !.t[o[3]] = s.t[k]] IN [s |-> s2, e |-> ShowT(s2, k) \o ShowT(s2, o[3])]
    [] o[1] = "S.find" -> Same(s, Pos(IF o[4] > Len(s.t[k]) THEN 0 ELSE Find(s.t[k], StrArg(s, o[3]), o[4] + 1)))
    [] o[1] = "S.rfind" -> Same(s, Pos(LET a == StrArg(s, o[3]) IN
         IF a = <<>> THEN (IF o[4] < 0 \/ o[4] > Len(s.t[k]) THEN Len(s.t[k]) + 1 ELSE o[4] + 1) ELSE RFind(s.t[k], a, FromEnd(s, s.t[k], o[4]))))
    [] o[1] = "S.first" -> \* in the set (want 1) or outside of it, from the offset
         Same(s, Pos(LET S == {x \in o[4] + 1..Len(s.t[k]) : (s.t[k][x] \in Range(StrArg(s, o[3]))) = (o[5] = 1)} IN IF S = {} THEN 0 ELSE SetMin(S)))
    [] o[1] = "S.last" ->
         Same(s, Pos(LET S == {x \in 1..FromEnd(s, s.t[k], o[4]) : (s.t[k][x] \in Range(StrArg(s, o[3]))) = (o[5] = 1)} IN IF S = {} THEN 0 ELSE SetMax(S)))
    [] o[1] = "S.in" -> Same(s, <<I(B01(o[3] \in Range(s.t[k])))>>)
    [] o[1] = "S.rel" -> LET c == Cmp(StrArg(s, o[2]), StrArg(s, o[3]), 1)
                         IN Same(s, <<I(B01(c = 0)), I(B01(c # 0)), I(B01(c < 0)), I(B01(c <= 0)), I(B01(c > 0)), I(B01(c >= 0))>>)
    [] o[1] = "S.char" -> LET s2 == [s EXCEPT !.t[k] = <<o[3]>>] IN [s |-> s2, e |-> ShowT(s2, k)]
    \* numbers
    [] o[1] = "istr" -> Same(s, Ints(Append(Text(o[2], o[3], 10), 0)))
    [] o[1] = "print" -> Same(s, IF o[4] \in 2..16 THEN Ints(Text(o[2], o[3], o[4])) ELSE Err)
    [] o[1] = "parse" -> LET v == Parse(Strip(o[3])) IN Same(s, IF o[2] = "long" THEN <<<<"l", v>>>> ELSE <<I(ToInt(v))>>)
    [] o[1] = "fstr" -> Same(s, Ints(Append(FText(o[2], o[3], o[4], o[5], o[6]), 0)))
    [] o[1] = "fprint" -> Same(s, Ints(FText(o[2], o[3], o[4], o[5], FALSE)))
    [] o[1] = "puts" -> Same(s, Ints(LET a == s.r[k] IN IF CLen(a) >= 0 THEN CStr(a) ELSE a))
    [] o[1] = "write" -> Same(s, Ints(s.r[k]))
    [] o[1] = "chars" -> Same(s, Ints(o[2]))                     \* a fixed text
    [] o[1] = "map" -> Same(s, Ints([x \in 1..Len(o[2]) |-> o[2][x] * 2 + 1]))
    [] o[1] = "filter" -> Same(s, Ints(SelectSeq(o[2], LAMBDA x : x % 3 # 0)))
    [] o[1] = "fold" -> Same(s, <<I(FoldL(o[2], 2, o[2][1])), I(FoldR(o[2], Len(o[2]) - 1, o[2][Len(o[2])]))>>)
    [] OTHER -> Same(s, <<<<"unknown operation">>>>)
Start(x) == [r |-> [k \in 1..4 |-> <<>>], t |-> [k \in 1..4 |-> <<>>]]
Apply(s, o, r) ==
  CASE o[1] = "sort" -> [ok |-> \A x \in 1..Len(r) : r[x][1] = "i" /\ LET q == [y \in 1..Len(r) |-> r[y][2]] IN Perm(q, o[2]) /\ Ordered(q, o[3]), exp |-> <<"ordered", o[2]>>, s |-> s]
    \* fparse: text d * 10^x, result <<"D", neg, m, e>>
    [] o[1] = "fparse" -> LET ok == /\ Len(r) = 1 /\ r[1][1] = "D"
                                    /\ IF IsZero(o[3]) THEN IsZero(r[1][3])
                                       ELSE /\ r[1][2] = o[2] /\ ~IsZero(r[1][3])
                                            /\ IF o[5] = 1 THEN CmpTo(o[3], o[4], r[1][3], r[1][4], 0) = 0
                                               ELSE CmpTo(o[3], o[4], r[1][3], r[1][4], -1) >= 0 /\ CmpTo(o[3], o[4], r[1][3], r[1][4], 1) <= 0
                          IN [ok |-> ok, exp |-> "the nearest number", s |-> s]
    [] OTHER -> LET d == Do(s, o) IN [ok |-> r = d.e, exp |-> d.e, s |-> d.s]
Inv(s) == \A k \in 1..4 : \A x \in Range(s.t[k]) : x # 0
=============================================================================
