------------------------------- MODULE Native -------------------------------
(***************************************************************************)
(* Values that cross the boundary between host and script. A native        *)
(* function reports the leaves of its arguments in order, changes the      *)
(* memory it was given references to, may raise an error or call back into *)
(* the script, and returns either one of its arguments or the next of      *)
(* three values of its own; the caller reports the leaves of the result.   *)
(* A script function called by the host does the same the other way round. *)
(* Nothing in between may change: neither a value nor the order nor the    *)
(* identity of the memory behind references, arrays and closures.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Start(x) == [fns |-> x.fns, cells |-> x.cells, cnt |-> [f \in DOMAIN x.fns |-> 0]]
Tk(v) == <<"t", v>>
N(n) == <<"t", ToString(n)>>
Rs(e, s) == [e |-> e, s |-> s]
Add(s, c, n) == [s EXCEPT !.cells[c][1] = @ + n]
\* ---------------------------------------------------------------- layout
RECURSIVE Align(_), Size(_), Offsets(_, _, _), MaxOf(_, _, _)
Scalars == [bool |-> <<1, 1>>, char |-> <<1, 1>>, short |-> <<2, 2>>, int |-> <<4, 4>>, long |-> <<8, 8>>, float |-> <<4, 4>>, double |-> <<8, 8>>,
            ref |-> <<8, 4>>, arr |-> <<12, 4>>, any |-> <<12, 4>>, fun |-> <<12, 4>>, tid |-> <<4, 4>>]
MaxOf(q, k, m) == IF k > Len(q) THEN m ELSE MaxOf(q, k + 1, IF Align(q[k]) > m THEN Align(q[k]) ELSE m)
Align(t) == CASE t[1] = "s" -> Scalars[t[2]][2] [] t[1] = "f" -> Align(t[2]) [] OTHER -> MaxOf(t[2], 1, 1)
Up(n, a) == ((n + a - 1) \div a) * a
Offsets(q, k, n) == IF k > Len(q) THEN n ELSE Offsets(q, k + 1, Up(n, Align(q[k])) + Size(q[k]))
Size(t) == CASE t[1] = "s" -> Scalars[t[2]][1] [] t[1] = "f" -> Up(Size(t[2]) * t[3], 4) [] OTHER -> Up(Up(Offsets(t[2], 1, 0), Align(t)), 4)
\* ------------------------------------------------- what the host function sees
Numbers(q) == [k \in 1..Len(q) |-> N(q[k])]
Leaf(s, p) == CASE p[1] = "v" -> Rs(<<Tk(p[2])>>, s)
                [] p[1] = "tid" -> Rs(<<Tk(p[2])>>, s)
                [] p[1] = "ref" -> Rs(<<N(s.cells[p[2]][1])>>, Add(s, p[2], 1))
                [] p[1] = "any" -> Rs(<<Tk("int"), N(s.cells[p[2]][1])>>, Add(s, p[2], 1))
                [] p[1] = "arr" -> LET q == s.cells[p[2]] IN Rs(<<N(Len(q))>> \o Numbers(q), IF q = <<>> THEN s ELSE Add(s, p[2], 1))
                [] p[1] = "fun" -> Rs(<<N(s.cells[p[2]][1] + 5)>>, Add(s, p[2], 5))
RECURSIVE Leaves(_, _, _), Args(_, _, _)
Leaves(r, q, k) == IF k > Len(q) THEN r ELSE LET l == Leaf(r.s, q[k]) IN Leaves(Rs(r.e \o l.e, l.s), q, k + 1)
Args(r, as, k) == IF k > Len(as) THEN r ELSE Args(Leaves(r, as[k], 1), as, k + 1)
\* ---------------------------------------------------- what the script shows
Shown(s, p) == CASE p[1] = "v" -> Rs(<<Tk(p[2])>>, s)
                 [] p[1] = "tid" -> Rs(<<Tk(p[3])>>, s)
                 [] p[1] \in {"ref", "any"} -> Rs(<<N(s.cells[p[2]][1])>>, s)
                 [] p[1] = "arr" -> Rs(<<N(Len(s.cells[p[2]]))>> \o Numbers(s.cells[p[2]]), s)
                 [] p[1] = "fun" -> Rs(<<N(s.cells[p[2]][1] + 7)>>, Add(s, p[2], 7))
RECURSIVE Show(_, _, _)
Show(r, q, k) == IF k > Len(q) THEN r ELSE LET l == Shown(r.s, q[k]) IN Show(Rs(r.e \o l.e, l.s), q, k + 1)
Tokens(q) == [k \in 1..Len(q) |-> Tk(q[k])]
\* ------------------------------------------------------------------- calls
\* c: <<function, arguments, mode, callback>>; the result has the error message or ""
RECURSIVE Call(_, _)
Name(k) == "f" \o ToString(k)
Callback(s, cb, k) ==
  LET e == <<N(cb[2])>> IN
  CASE cb[1] = "ret" -> [e |-> e, s |-> s, err |-> "", v |-> k + cb[2]]
    [] cb[1] = "fail" -> [e |-> e, s |-> s, err |-> "cb error " \o ToString(cb[2]), v |-> 0]
    [] cb[1] = "cell" -> [e |-> e, s |-> Add(s, cb[3], k), err |-> "", v |-> s.cells[cb[3]][1] + k]
    [] cb[1] = "call" -> LET r == Call(s, cb[3]) IN [e |-> e \o r.e, s |-> r.s, err |-> r.err, v |-> k + cb[2]]
Call(s, c) ==
  LET f == s.fns[Name(c[1])]
      a == Args(Rs(<<<<"f", ToString(c[1])>>>>, s), c[2], 1)
      n == (a.s.cnt[Name(c[1])] % 3) + 1
      t == [a.s EXCEPT !.cnt[Name(c[1])] = @ + 1]
      b == CASE c[3] = 0 -> [e |-> <<>>, s |-> t, err |-> ""]
             [] c[3] = 1 -> [e |-> <<>>, s |-> t, err |-> "native error " \o ToString(c[1])]
             [] OTHER -> LET r == Callback(t, c[4], c[1])
                         IN IF r.err = "" THEN [e |-> Append(r.e, <<"cb", ToString(r.v)>>), s |-> r.s, err |-> ""]
                            ELSE [e |-> Append(r.e, <<"cbfail", "">>), s |-> r.s, err |-> IF c[3] = 2 THEN r.err ELSE ""]
  IN IF b.err # "" THEN [e |-> a.e \o b.e, s |-> b.s, err |-> b.err]
     ELSE LET w == IF f.pass > 0 THEN Show(Rs(<<>>, b.s), c[2][f.pass], 1)
                   ELSE Rs(IF f.rets = <<>> THEN <<>> ELSE Tokens(f.rets[n]), b.s)
          IN [e |-> a.e \o b.e \o w.e, s |-> w.s, err |-> ""]
\* -------------------------------------------------------------- operations
Do(s, o) ==
  CASE o[1] = "call" -> LET r == Call(s, Tail(o)) IN Rs(IF r.err = "" THEN r.e ELSE Append(r.e, <<"fail", r.err>>), r.s)
    [] o[1] = "try" -> LET r == Call(s, Tail(o)) IN Rs(IF r.err = "" THEN Append(r.e, N(1)) ELSE Append(r.e, <<"caught", r.err>>), r.s)
    [] o[1] = "size" -> Rs(<<N(Size(o[2]))>>, s)
    [] o[1] = "host" ->                                      \* <<"host", argument leaves, calls made by the script function, it fails, number, <<type, value>> >>
         LET r == IF o[3] = <<>> THEN [e |-> <<>>, s |-> s, err |-> IF o[4] = 1 THEN "cb error " \o ToString(o[5]) ELSE ""] ELSE Call(s, o[3][1])
             e == Tokens(o[2]) \o r.e
         IN Rs(IF r.err # "" THEN Append(e, <<"hfail", r.err>>)
              ELSE Append(e, <<"hr", IF Len(o[6]) = 1 THEN o[6][1] ELSE o[6][1] \o " " \o o[6][2]>>), r.s)
Apply(s, o, r) == LET d == Do(s, o) IN [ok |-> r = d.e, exp |-> d.e, s |-> d.s]
Inv(s) == \A f \in DOMAIN s.fns : s.cnt[f] >= 0 /\ s.fns[f].pass >= 0
=============================================================================
