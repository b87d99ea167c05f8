-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The garbage collected heap as a program sees it. Objects have two       *)
(* edges; the program keeps root slots. An object may be finalized only    *)
(* when no root reaches it, once, with its edges intact, and has been      *)
(* finalized after a collection that follows the operation that made it    *)
(* unreachable. With kind "mem": the accounting of a memory limit.         *)
(* Results are sequences of tokens; <<"F", id, sum>> is a finalizer call.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NR == 8                                  \* root slots
Phoenix == 8                             \* the slot into which a phoenix object puts itself when it is finalized
I(n) == <<"i", n>>
\* kinds of objects: 9 a leaf, 10 a phoenix (edge 1 only), 20 one of a block of three objects (leaves), others have two edges
Edges(k) == CASE k = 9 \/ k = 20 -> 0 [] k = 10 -> 1 [] OTHER -> 2
Obj(k, blk) == [k |-> k, e |-> <<0, 0>>, fin |-> FALSE, blk |-> blk]
Mates(s, x) == IF s.objs[x].blk = 0 THEN {x} ELSE {y \in DOMAIN s.objs : s.objs[y].blk = s.objs[x].blk}
RECURSIVE Closure(_, _, _)
Closure(s, done, todo) == IF todo = {} THEN done
                          ELSE LET d == done \cup todo
                                   nx == UNION {UNION {Mates(s, y) : y \in {s.objs[x].e[f] : f \in 1..2} \ {0}} : x \in todo}
                               IN Closure(s, d, nx \ d)
Live(s) == Closure(s, {}, UNION {Mates(s, y) : y \in {s.roots[q] : q \in 1..NR} \ {0}})
Sum(s, x) == (2 * s.objs[x].e[1] + 3 * s.objs[x].e[2]) % 9973
Fs(r) == SelectSeq(r, LAMBDA t : t[1] = "F")
Rest(r) == SelectSeq(r, LAMBDA t : t[1] # "F")
Add(o, x, k, blk) == x :> Obj(k, blk) @@ o
Path(s, x, n, seed) == \* the identities met by following edges chosen by the seed
  LET RECURSIVE P(_, _, _)
      P(y, m, sd) == IF y = 0 \/ m = 0 THEN <<I(0)>>
                     ELSE <<I(y)>> \o P(IF Edges(s.objs[y].k) = 0 THEN 0 ELSE s.objs[y].e[1 + ((sd % 2) % Edges(s.objs[y].k))], m - 1, sd \div 2)
  IN P(x, n, seed)
See(s, x) == IF x = 0 THEN <<I(0)>> ELSE <<I(x), I(Sum(s, x))>>
\* deep(r): frames keep an object each: prints the identities on the way back
Back(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Step(s, o) ==
  LET r == o[2] IN
  CASE o[1] = "new" -> [s |-> [s EXCEPT !.objs = Add(@, o[3], o[4], 0), !.roots[r] = o[3]], out |-> <<>>]
    [] o[1] = "arr" -> [s |-> [s EXCEPT !.objs = Add(Add(Add(@, o[3], 20, o[3]), o[3] + 1, 20, o[3]), o[3] + 2, 20, o[3]), !.roots[r] = o[3] + o[4]], out |-> <<>>]
    [] o[1] = "drop" -> [s |-> [s EXCEPT !.objs = Add(@, o[3], o[4], 0)], out |-> <<>>]
    [] o[1] = "link" -> [s |-> IF s.roots[r] = 0 \/ o[3] > Edges(s.objs[s.roots[r]].k) THEN s ELSE [s EXCEPT !.objs[s.roots[r]].e[o[3]] = s.roots[o[4]]], out |-> <<>>]
    [] o[1] = "move" -> [s |-> [s EXCEPT !.roots[r] = s.roots[o[3]]], out |-> <<>>]
    [] o[1] = "follow" -> [s |-> [s EXCEPT !.roots[r] = IF s.roots[o[3]] = 0 THEN 0 ELSE s.objs[s.roots[o[3]]].e[o[4]]], out |-> <<>>]
    [] o[1] = "clear" -> [s |-> [s EXCEPT !.roots[r] = 0], out |-> <<>>]
    [] o[1] = "see" -> [s |-> s, out |-> See(s, s.roots[r])]
    [] o[1] = "path" -> [s |-> s, out |-> Path(s, s.roots[r], 7, o[3])]
    [] o[1] = "deep" -> [s |-> s, out |-> Back(Path(s, s.roots[r], 7, o[3]))]
    [] o[1] = "temps" -> [s |-> [s EXCEPT !.objs = Add(Add(Add(@, o[2], o[3], 0), o[2] + 1, 9, 0), o[2] + 2, o[4], 0)], out |-> <<I(o[2]), I(o[2] + 1), I(o[2] + 2)>>]
    [] o[1] = "gen" -> [s |-> s, out |-> <<I(s.roots[r]), I(s.roots[o[3]]), I(s.roots[r])>>]
    [] OTHER -> [s |-> s, out |-> <<>>]                     \* junk, drain
\* finalizer calls of one operation, in order
RECURSIVE Fin(_, _, _, _)
Fin(s, fs, dead, k) ==
  IF k > Len(fs) THEN [ok |-> TRUE, s |-> s, exp |-> 0]
  ELSE LET x == fs[k][2] IN
       IF x \notin DOMAIN s.objs THEN [ok |-> FALSE, s |-> s, exp |-> <<"no such object", fs[k]>>]
       ELSE IF s.objs[x].fin THEN [ok |-> FALSE, s |-> s, exp |-> <<"finalized twice", x>>]
       ELSE IF x \notin dead THEN [ok |-> FALSE, s |-> s, exp |-> <<"reachable", x>>]
       ELSE IF fs[k][3] # Sum(s, x) THEN [ok |-> FALSE, s |-> s, exp |-> <<"members of", x, Sum(s, x)>>]
       ELSE LET s2 == [s EXCEPT !.objs[x].fin = TRUE, !.roots[Phoenix] = IF s.objs[x].k = 10 THEN x ELSE @]
            IN Fin(s2, fs, IF s.objs[x].k = 10 THEN dead \cup (DOMAIN s2.objs \ Live(s2)) ELSE dead, k + 1)
Mut(s, o, r) ==
  LET st == Step(s, o)
      fs == Fs(r)
      s2 == st.s
      dead == IF fs = <<>> /\ o[1] # "drain" THEN {} ELSE DOMAIN s2.objs \ Live(s2)
      all == o[1] = "end"                                     \* the end of the program finalizes everything that is left
      f == Fin(s2, fs, IF all THEN DOMAIN s2.objs ELSE dead, 1)
      must == IF all THEN DOMAIN s2.objs ELSE IF o[1] = "drain" THEN dead ELSE {}
      left == {x \in must : ~f.s.objs[x].fin}
  IN IF Rest(r) # st.out THEN [ok |-> FALSE, s |-> s, exp |-> st.out]
     ELSE IF ~f.ok THEN [ok |-> FALSE, s |-> s, exp |-> f.exp]
     ELSE IF left # {} THEN [ok |-> FALSE, s |-> s, exp |-> <<"not finalized", left>>]
     ELSE [ok |-> TRUE, s |-> f.s, exp |-> 0]
\* ---------------------------------------------------------------- memory limit
RECURSIVE SumHeld(_, _)
SumHeld(h, k) == IF k > Len(h) THEN 0 ELSE h[k] + SumHeld(h, k + 1)
\* held: per slot <<least, most>> bytes of what it keeps
Lo(s) == SumHeld([k \in 1..Len(s.held) |-> s.held[k][1]], 1)
Hi(s) == SumHeld([k \in 1..Len(s.held) |-> s.held[k][2]], 1)
Mem(s, o, r) ==
  LET okr == <<I(o[2])>>
      err == <<<<"m", "memlimit">>>> IN
  CASE o[1] = "churn" -> \* o: count, bytes at most live at a time
       [ok |-> IF Hi(s) + o[3] <= s.limit THEN r = okr ELSE IF Lo(s) > s.limit THEN r = err ELSE r \in {okr, err}, s |-> s, exp |-> okr]
    [] o[1] = "hold" -> \* o: slot, least and most bytes
       LET s0 == [s EXCEPT !.held[o[2]] = <<0, 0>>]
           must == Hi(s0) + o[4] <= s.limit
           cannot == Lo(s0) + o[3] > s.limit
           worked == r = okr
       IN [ok |-> IF must THEN worked ELSE IF cannot THEN r = err ELSE r \in {okr, err},
           s |-> IF worked THEN [s EXCEPT !.held[o[2]] = <<o[3], o[4]>>] ELSE s0, exp |-> IF must THEN okr ELSE err]
    [] o[1] = "check" -> [ok |-> r = okr, s |-> s, exp |-> okr]
    [] o[1] = "release" -> [ok |-> r = okr, s |-> [s EXCEPT !.held[o[2]] = <<0, 0>>], exp |-> okr]
Start(x) == IF x[1] = "mem" THEN [kind |-> "mem", limit |-> x[2], held |-> [k \in 1..4 |-> <<0, 0>>]]
            ELSE [kind |-> "heap", objs |-> [k \in {} |-> 0], roots |-> [k \in 1..NR |-> 0]]
Apply(s, o, r) == IF s.kind = "mem" THEN Mem(s, o, r) ELSE Mut(s, o, r)
\* nothing that is reachable has been finalized, apart from what a phoenix brought back
Inv(s) == s.kind = "heap" => \A q \in 1..NR - 1 : s.roots[q] # 0 => s.roots[q] \in DOMAIN s.objs
=============================================================================
