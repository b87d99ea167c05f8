---------------------------- MODULE NullcMachine ----------------------------
(***************************************************************************)
(* An abstract machine that defines the meaning of nullc programs.         *)
(*                                                                         *)
(* A program is a record read from JSON:                                   *)
(*   types : types[t] = <<kind, ...>>   (1..12 are the built-in types)     *)
(*   nodes : nodes[x] = <<op, kids, static data ...>>                      *)
(*   fns   : fns[f]   = [par, pv, ret, body, nv, cl, co, ...]              *)
(*   gl    : types of the global variables (cells 1..Len(gl))              *)
(*   main  : node of the global code                                       *)
(* A value is <<t, payload>> with t its type; <<0,0>> is a value the       *)
(* specification leaves open. A place is <<-1, <<oid, path>>>>.            *)
(* Machine state (record m):                                               *)
(*   c   control: what is executed next                                    *)
(*   k   continuation of the running activation (nested pairs)             *)
(*   env cells of the local variables of the running activation            *)
(*   cid closure object the running function was called through (0: none)  *)
(*   fn  running function (0: global code)                                 *)
(*   up  suspended caller activations (nested pairs), dep their number     *)
(*   tr  number of protected calls (try) that are active                   *)
(*   st  store: every object (variable, allocated object, array) is a cell *)
(*   co  closure objects: [f, env, sus]                                    *)
(*   tp  number of events produced so far                                  *)
(***************************************************************************)
EXTENDS Words, TLC

TUnk == 0  TBool == 1  TChar == 2  TShort == 3  TInt == 4  TLong == 5  TFloat == 6  TDouble == 7
TTypeid == 8  TNull == 9  TAutoRef == 10  TAutoArr == 11  TVoid == 12
Unk == <<0, 0>>
Poison == <<0, 1>>      \* result of a failing operation that optimized code may leave out
Void == <<12, 0>>
NullPtr == <<0, <<>>>>
\* a reference into a null object: not comparable
OddRef(p) == p[1] = 0 /\ p[2] # <<>>
Known(v) == v[1] # 0
IntV(n) == <<4, n>>
BoolV(b) == <<1, IF b THEN 1 ELSE 0>>
PlaceV(oid, path) == <<-1, <<oid, path>>>>

------------------------------------------------------------------------------
(* Conversions *)

IsIntT(t) == t >= 1 /\ t <= 4
IsNumT(t) == t >= 1 /\ t <= 7
Wrap8(n) == LET x == n % 256 IN IF x >= 128 THEN x - 256 ELSE x
Wrap16(n) == LET x == n % 65536 IN IF x >= 32768 THEN x - 65536 ELSE x

\* value of a number as long limbs / as an exact fraction
AsLong(v) == IF v[1] = 5 THEN v[2] ELSE OfInt(v[2])
AsF(v) == IF v[1] >= 6 THEN v[2] ELSE IF v[1] = 5 THEN FOfLong(v[2]) ELSE FOfInt(v[2])
\* a fraction that fits an int after truncation; <<ok, int>>
FToInt(x) == LET r == FToLong(x) IN IF r[1] /\ FitsInt(r[2]) THEN <<TRUE, ToInt(r[2])>> ELSE <<FALSE, 0>>

FV(t, x) == IF x[1] = 9 \/ (x[1] = 0 /\ (x[3] > 980 \/ x[3] < -980)) THEN Unk ELSE <<t, x>>

\* conversion of a number when it is stored in a location of type t
StoreNum(v, t) ==
  LET s == v[1]
  IN IF ~Known(v) THEN v
     ELSE IF s = t /\ t \in {1, 4, 5, 7} THEN v
     ELSE IF t = 1 THEN (CASE s <= 4 -> <<1, IF v[2] # 0 THEN 1 ELSE 0>>
                           [] s = 5 -> <<1, IF v[2] # L0 THEN 1 ELSE 0>>
                           [] OTHER -> IF v[2][1] = 0 THEN <<1, IF v[2][2] # 0 THEN 1 ELSE 0>>
                                       ELSE IF v[2][1] = 4 THEN <<1, 0>> ELSE IF v[2][1] \in {2, 3} THEN <<1, 1>> ELSE Unk)
     ELSE IF t <= 4 THEN
          LET n == CASE s <= 4 -> <<TRUE, v[2]>> [] s = 5 -> <<TRUE, ToInt(v[2])>> [] OTHER -> FToInt(v[2])
          IN IF ~n[1] THEN Unk
             ELSE CASE t = 2 -> <<2, Wrap8(n[2])>> [] t = 3 -> <<3, Wrap16(n[2])>> [] OTHER -> <<4, n[2]>>
     ELSE IF t = 5 THEN (IF s <= 4 THEN <<5, OfInt(v[2])>> ELSE LET r == FToLong(v[2]) IN IF r[1] THEN <<5, r[2]>> ELSE Unk)
     ELSE IF t = 6 THEN LET x == AsF(v) IN IF x[1] = 9 \/ ~FIsFloat32(x) THEN Unk ELSE <<6, x>>
     ELSE FV(7, AsF(v))

\* implicit conversion of an operand: char, short and bool arithmetic keeps int width
PromoteTo(v, t) == IF ~Known(v) THEN v
                   ELSE IF v[1] = t THEN v
                   ELSE IF t <= 4 THEN <<t, v[2]>>
                   ELSE IF t = 5 THEN <<5, AsLong(v)>>
                   ELSE FV(t, AsF(v))

------------------------------------------------------------------------------
(* Operators *)

MaxT(a, b) == IF a >= b THEN a ELSE b
CmpOps == {"==", "!=", "<", ">", "<=", ">="}
\* type of the result of an arithmetic or bit operator
ResT(op, a, b) == LET w == MaxT(a, b) IN IF w = 1 /\ op \notin {"&", "|", "^", "<<", ">>"} THEN 4 ELSE w

CmpI(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
                    [] op = ">" -> a > b [] op = "<=" -> a <= b [] OTHER -> a >= b
CmpL(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> LLt(a, b)
                    [] op = ">" -> LLt(b, a) [] op = "<=" -> ~LLt(b, a) [] OTHER -> ~LLt(a, b)
CmpFl(op, a, b) == LET c == FCmp(a, b)
                   IN IF c = 9 THEN Unk
                      ELSE BoolV(CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c = -1
                                   [] op = ">" -> c = 1 [] op = "<=" -> c \in {-1, 0} [] OTHER -> c \in {0, 1})

PowNegI(b, n) == IF b = 1 THEN 1 ELSE IF b = -1 THEN (IF n % 2 = 0 THEN 1 ELSE -1) ELSE 0
PowNegL(b, n) == IF b = <<1, 0, 0, 0>> THEN b ELSE IF b = LNot(L0) THEN (IF n[1] % 2 = 0 THEN <<1, 0, 0, 0>> ELSE b) ELSE L0

RECURSIVE FPow(_, _, _)
FPow(b, n, acc) == IF n = 0 THEN acc ELSE FPow(b, n - 1, FMul(acc, b))
FPowV(a, b) == IF a[1] = 0 /\ b[1] = 0 /\ b[3] >= 0 /\ b[3] <= 3 /\ b[2] >= 0 /\ b[2] < 8
               THEN FPow(a, b[2] * P2(b[3]), <<0, 1, 0>>) ELSE FUnk
\* remainder with the sign of the dividend, small exact cases only
FModV(a, b) == IF a[1] = 0 /\ b[1] = 0 /\ a[2] > 0 /\ b[2] > 0
               THEN LET e == IF a[3] < b[3] THEN a[3] ELSE b[3]
                    IN IF CanShl(a[2], a[3] - e) /\ CanShl(b[2], b[3] - e)
                       THEN FNorm((a[2] * 2^(a[3] - e)) % (b[2] * 2^(b[3] - e)), e) ELSE FUnk
               ELSE FUnk

IntOp(op, t, a, b) ==
  LET r(n) == <<t, n>>
  IN CASE op = "+" -> r(IAdd(a, b))
       [] op = "-" -> r(ISub(a, b))
       [] op = "*" -> r(IMul(a, b))
       [] op = "/" -> IF b = 0 THEN <<-9, "div0">> ELSE IF a = MinInt /\ b = -1 THEN <<-9, "ovf">> ELSE r(IDiv(a, b))
       [] op = "%" -> IF b = 0 THEN <<-9, "div0">> ELSE IF a = MinInt /\ b = -1 THEN <<-9, "ovf">> ELSE r(IMod(a, b))
       [] op = "**" -> r(IF b < 0 THEN PowNegI(a, b) ELSE IPow(a, b))
       [] op = "<<" -> IF b < 0 \/ b > 31 THEN Unk ELSE r(IShl(a, b))
       [] op = ">>" -> IF b < 0 \/ b > 31 THEN Unk ELSE r(IShr(a, b))
       [] op = "&" -> r(IBitOp(BAnd, a, b))
       [] op = "|" -> r(IBitOp(BOr, a, b))
       [] OTHER -> r(IBitOp(BXor, a, b))
MinLong == <<0, 0, 0, 32768>>
LongOp(op, a, b) ==
  LET r(n) == <<5, n>>
      amt == IF FitsInt(b) THEN ToInt(b) ELSE -1
  IN CASE op = "+" -> r(LAdd(a, b))
       [] op = "-" -> r(LSub(a, b))
       [] op = "*" -> r(LMul(a, b))
       [] op = "/" -> IF b = L0 THEN <<-9, "div0">> ELSE IF a = MinLong /\ b = LNot(L0) THEN <<-9, "ovf">> ELSE r(LDiv(a, b))
       [] op = "%" -> IF b = L0 THEN <<-9, "div0">> ELSE IF a = MinLong /\ b = LNot(L0) THEN <<-9, "ovf">> ELSE r(LMod(a, b))
       [] op = "**" -> IF LIsNeg(b) THEN r(PowNegL(a, b)) ELSE IF FitsInt(b) THEN r(LPowI(a, ToInt(b))) ELSE Unk
       [] op = "<<" -> IF amt < 0 \/ amt > 63 THEN Unk ELSE r(LShl(a, amt))
       [] op = ">>" -> IF amt < 0 \/ amt > 63 THEN Unk ELSE r(LShr(a, amt))
       [] op = "&" -> r(LBitOp(BAnd, a, b))
       [] op = "|" -> r(LBitOp(BOr, a, b))
       [] OTHER -> r(LBitOp(BXor, a, b))
FltOp(op, t, a, b) ==
  FV(t, CASE op = "+" -> FAdd(a, b) [] op = "-" -> FSub(a, b) [] op = "*" -> FMul(a, b) [] op = "/" -> FDiv(a, b)
          [] op = "%" -> FModV(a, b) [] op = "**" -> FPowV(a, b) [] OTHER -> FUnk)

\* truth value of a number: 0, 1 or 9 (open)
Truth(v) == IF ~Known(v) THEN 9
            ELSE CASE v[1] <= 4 -> (IF v[2] # 0 THEN 1 ELSE 0)
                   [] v[1] = 5 -> (IF v[2] # L0 THEN 1 ELSE 0)
                   [] v[1] <= 7 -> (IF v[2][1] = 0 THEN (IF v[2][2] # 0 THEN 1 ELSE 0) ELSE IF v[2][1] = 4 THEN 0 ELSE IF v[2][1] = 1 THEN 9 ELSE 1)
                   [] v[1] = 9 -> 0
                   [] v[1] = 10 -> (IF v[2][1] # 0 THEN 1 ELSE 0)
                   [] OTHER -> (IF v[2][1] # 0 THEN 1 ELSE IF v[2][2] = <<>> THEN 0 ELSE 9)     \* reference, array, function
\* <<-9, kind>> is a fault, <<-8, 0>> may be one
NumBin(op, v1, v2) ==
  LET w == MaxT(v1[1], v2[1])
  IN IF ~Known(v1) \/ ~Known(v2)
     THEN (IF op \notin {"/", "%"} THEN Unk
           ELSE IF v1[1] >= 6 \/ v2[1] >= 6 THEN Unk             \* a fraction is involved: no failure
           ELSE IF Known(v2) /\ Truth(v2) = 1 /\ (IF v2[1] = 5 THEN v2[2] # LNot(L0) ELSE v2[2] # -1) THEN Unk
           ELSE <<-8, 0>>)                                     \* may fail or not
     ELSE IF op \in CmpOps
     THEN IF w <= 4 THEN BoolV(CmpI(op, v1[2], v2[2]))
          ELSE IF w = 5 THEN BoolV(CmpL(op, AsLong(v1), AsLong(v2)))
          ELSE CmpFl(op, AsF(v1), AsF(v2))
     ELSE LET t == ResT(op, v1[1], v2[1])
          IN IF t <= 4 THEN IntOp(op, t, v1[2], v2[2])
             ELSE IF t = 5 THEN LongOp(op, AsLong(v1), AsLong(v2))
             ELSE FltOp(op, t, AsF(v1), AsF(v2))

NumUn(op, v) ==
  IF ~Known(v) THEN Unk
  ELSE CASE op = "-" -> (IF v[1] <= 4 THEN <<v[1], INeg(v[2])>> ELSE IF v[1] = 5 THEN <<5, LNeg(v[2])>> ELSE FV(v[1], FNeg(v[2])))
         [] op = "~" -> (IF v[1] <= 4 THEN <<v[1], INot(v[2])>> ELSE <<5, LNot(v[2])>>)
         [] OTHER -> v
------------------------------------------------------------------------------
(* Values of composite types, store *)

RECURSIVE Zero(_, _)
Zero(P, t) ==
  IF t <= 4 THEN <<t, 0>>
  ELSE IF t = 5 THEN <<5, L0>>
  ELSE IF t <= 7 THEN <<t, <<0, 0, 0>>>>
  ELSE IF t = 8 THEN <<8, 0>>
  ELSE IF t = 10 THEN <<10, <<0, NullPtr>>>>
  ELSE IF t = 11 THEN <<11, <<0, NullPtr, 0>>>>
  ELSE LET d == P.types[t]
       IN CASE d[1] = "s" -> <<t, [i \in 1..Len(d[2]) |-> Zero(P, d[2][i])]>>
            [] d[1] = "a" -> LET z == Zero(P, d[2]) IN <<t, [i \in 1..d[3] |-> z]>>
            [] d[1] = "u" -> <<t, <<0, <<>>, 0>>>>
            [] d[1] = "e" -> <<t, 0>>
            [] OTHER -> <<t, NullPtr>>        \* "r" reference, "f" function: <<fid, closure>>

RECURSIVE GetAt(_, _, _)
GetAt(v, path, i) == IF i > Len(path) THEN v ELSE GetAt(v[2][path[i]], path, i + 1)
RECURSIVE PutAt(_, _, _, _)
PutAt(v, path, i, nv) == IF i > Len(path) THEN nv
                         ELSE <<v[1], [v[2] EXCEPT ![path[i]] = PutAt(v[2][path[i]], path, i + 1, nv)]>>
Read(st, pl) == IF Len(pl[2]) = 0 THEN st[pl[1]] ELSE GetAt(st[pl[1]], pl[2], 1)
Write(st, pl, v) == IF Len(pl[2]) = 0 THEN [st EXCEPT ![pl[1]] = v]
                    ELSE [st EXCEPT ![pl[1]] = PutAt(st[pl[1]], pl[2], 1, v)]

\* conversion of any value for storage in a location of type t
Conv(P, v, t) ==
  IF v[1] = t /\ t > 7 THEN v
  ELSE IF ~Known(v) THEN v
  ELSE IF t <= 7 THEN StoreNum(v, t)
  ELSE IF v[1] = 9 THEN Zero(P, t)                  \* nullptr
  ELSE <<t, v[2]>>                                  \* reference to base, function, enumeration

------------------------------------------------------------------------------
(* The machine *)

Act(m) == [k |-> m.k, env |-> m.env, cid |-> m.cid, fn |-> m.fn]

SetV(m, v) == [m EXCEPT !.c = <<"V", v>>]
Throw(m, f) == [m EXCEPT !.c = <<"T", f>>]
Push(m, c, f) == [m EXCEPT !.c = c, !.k = <<f, m.k>>]

\* every closure object that shares the cell of variable v takes a private copy of it
RECURSIVE CloseIn(_, _, _, _)
CloseIn(m, v, cell, i) ==
  IF i > Len(m.co) THEN m
  ELSE IF m.co[i].env[v] = cell
       THEN CloseIn([m EXCEPT !.st = Append(m.st, m.st[cell]), !.co = [m.co EXCEPT ![i].env[v] = Len(m.st) + 1]], v, cell, i + 1)
       ELSE CloseIn(m, v, cell, i + 1)
RECURSIVE CloseVars(_, _, _)
CloseVars(m, vs, i) == IF i > Len(vs) THEN m
                       ELSE CloseVars(IF m.env[vs[i]] = 0 THEN m ELSE CloseIn(m, vs[i], m.env[vs[i]], 1), vs, i + 1)
Close(m, vs) == IF Len(vs) = 0 THEN m ELSE CloseVars(m, vs, 1)

\* function call: args already converted to the parameter types
Alloc(m, v) == [m EXCEPT !.st = Append(m.st, v)]

RECURSIVE BindArgs(_, _, _, _, _, _)
BindArgs(P, F, st, env, args, i) ==
  IF i > Len(F.pv) THEN <<st, env>>
  ELSE BindArgs(P, F, Append(st, Conv(P, args[i], F.par[i])), [env EXCEPT ![F.pv[i]] = Len(st) + 1], args, i + 1)

NoEnv(n) == [i \in 1..n |-> 0]

Call(P, m, f, cid, args) ==
  LET F == P.fns[f]
      up == <<Act(m), m.up>>
  IN IF F.co = 1 /\ Len(m.co[cid].sus) = 1
     THEN LET a == m.co[cid].sus[1]                       \* resume after the yield, with the new arguments
              b == BindArgs(P, F, m.st, a.env, args, 1)
          IN [m EXCEPT !.c = <<"N">>, !.k = a.k, !.env = b[2], !.cid = cid, !.fn = f, !.up = up, !.dep = m.dep + 1,
                       !.st = b[1]]
     ELSE LET b == BindArgs(P, F, m.st, NoEnv(P.nvar), args, 1)
          IN [m EXCEPT !.c = <<"S", F.body>>, !.k = <<>>, !.env = b[2], !.cid = cid, !.fn = f, !.up = up,
                       !.st = b[1], !.dep = m.dep + 1]

\* leave the running function with value v (already evaluated)
Return(P, m, v) ==
  LET m1 == IF m.fn = 0 THEN m ELSE Close(m, P.fns[m.fn].cl)
  IN IF m.fn = 0 THEN [m1 EXCEPT !.c = <<"X", v>>]
     ELSE LET a == m1.up[1]
              m2 == [m1 EXCEPT !.c = <<"V", v>>, !.k = a.k, !.env = a.env, !.cid = a.cid, !.fn = a.fn, !.up = m1.up[2], !.dep = m1.dep - 1]
          IN IF P.fns[m.fn].co = 1 THEN [m2 EXCEPT !.co = [m.co EXCEPT ![m.cid].sus = <<>>]] ELSE m2

\* suspend the running coroutine
Yield(P, m0, v) ==
  LET m == Close(m0, P.fns[m0.fn].cl)
      a == m.up[1]
  IN [m EXCEPT !.c = <<"V", v>>, !.k = a.k, !.env = a.env, !.cid = a.cid, !.fn = a.fn, !.up = m.up[2], !.dep = m.dep - 1,
               !.co = [m.co EXCEPT ![m.cid].sus = <<Act(m)>>]]

EnvOf(m, v) == m.co[m.cid].env[v]

\* declaration of variable idx (kind "g" global, otherwise local; fresh: a new cell every time) with value v
DeclVar(m, kind, idx, fresh, v) ==
  IF kind = "g" THEN [m EXCEPT !.st = [m.st EXCEPT ![idx] = v]]
  ELSE IF fresh = 1 \/ m.env[idx] = 0
  THEN [m EXCEPT !.env = [m.env EXCEPT ![idx] = Len(m.st) + 1], !.st = Append(m.st, v)]
  ELSE [m EXCEPT !.st = [m.st EXCEPT ![m.env[idx]] = v]]
GetVar(m, kind, idx) == IF kind = "g" THEN m.st[idx] ELSE m.st[m.env[idx]]

(* Dynamic types: every object of a class carries its class, type t derives from type b *)
RECURSIVE Derives(_, _, _)
Derives(P, t, b) == t = b \/ (t > 12 /\ P.types[t][1] = "s" /\ P.types[t][3] # 0 /\ Derives(P, P.types[t][3], b))
IsExt(P, t) == t > 12 /\ P.types[t][1] = "s" /\ P.types[t][4] = 1
\* class of the object at a place (a reference to an extendable class may point to any derived class)
ObjType(m, pl) == Read(m.st, pl)[1]
ARef(t, pl) == <<10, <<t, pl>>>>

MkClosure(m, caps, nv) ==
  LET F[i \in 0..Len(caps)] == IF i = 0 THEN NoEnv(nv)
                               ELSE [F[i-1] EXCEPT ![caps[i][1]] = IF caps[i][2] = 1 THEN m.env[caps[i][1]] ELSE EnvOf(m, caps[i][1])]
  IN F[Len(caps)]

\* element i of an array place of n elements
Elem(m, oid, path, idx, n) ==
  IF idx < 0 \/ idx >= n THEN Throw(m, "oob")
  ELSE SetV(m, PlaceV(oid, Append(path, idx + 1)))

\* result of a store: the assigned value; left open when the location narrowed it
StoreRes(v, sv) == IF v[1] = sv[1] \/ v[1] > 7 \/ ~Known(v) THEN (IF v = sv THEN sv ELSE IF v[1] = sv[1] THEN Unk ELSE sv)
                   ELSE IF sv[1] \in {4, 5, 7} THEN sv
                   ELSE IF ~Known(sv) THEN Unk
                   ELSE IF v[1] <= 4 /\ sv[1] <= 4 THEN (IF v[2] = sv[2] THEN sv ELSE Unk)
                   ELSE Unk

\* function results are not narrowed: left open where they would not fit
RetConv(P, v, t) == LET sv == Conv(P, v, t)
                    IN IF t > 7 \/ ~Known(v) \/ ~Known(sv) \/ v[1] = t \/ t \in {4, 5, 7} THEN (IF v[1] = t /\ t \in {1, 2, 3, 6} THEN StoreRes(v, sv) ELSE sv)
                       ELSE IF NumBin("==", v, sv) = <<1, 1>> THEN sv ELSE Unk

AsIdx(v) == IF v[1] <= 4 THEN v[2] ELSE IF v[1] = 5 THEN ToInt(v[2]) ELSE LET r == FToInt(v[2]) IN r[2]
Stop(m) == [m EXCEPT !.c = <<"U">>]       \* behaviour left open from here on

\* an error with message kind f and object x (an auto ref) leaves the running expression; nearest protected call
ThrowObj(m, f, x) == [m EXCEPT !.c = <<"T", f, NullPtr, x>>]
NoObj == <<10, <<0, NullPtr>>>>
Event(m, kind, v, res) == [m EXCEPT !.c = <<"EV", kind, v, res>>]

\* operators whose operands are all evaluated first, left to right
HasPoison(a) == \E i \in 1..Len(a) : a[i] = Poison
PoisonOp(m, n, a) ==
  LET op == n[1]
  IN IF op \in {"callf", "newa", "i", "ui"} THEN Stop(m)
     ELSE IF op = "bin" /\ ((a[1] = Poison /\ a[2] = Poison)                \* the result may not depend on the missing operand
                            \/ (a[1] # Poison /\ Truth(a[1]) # 1)
                            \/ (a[2] # Poison /\ (Truth(a[2]) # 1 \/ n[3] \in {"%", "/"})))
     THEN SetV(m, Unk)
     ELSE SetV(m, Poison)   \* nothing is stored through a place that does not exist
Apply(P, m, n, a) ==
  LET op == n[1] IN
  CASE HasPoison(a) /\ op \notin {"ev", "call", "calls", "arr", "asg"} -> PoisonOp(m, n, a)
    [] op = "asg" /\ a[1] = Poison -> SetV(m, Poison)
    [] op \in {"ld", "asg", "inc"} /\ a[1][2][1] = 0 -> Throw(m, "null")
    [] op = "bin" -> LET r == NumBin(n[3], a[1], a[2]) IN IF r[1] = -9 THEN Throw(m, r[2]) ELSE IF r[1] = -8 THEN Stop(m) ELSE SetV(m, r)
    [] op = "ld" -> SetV(m, Read(m.st, a[1][2]))
    [] op = "ev" -> Event(m, n[3], Conv(P, a[1], n[4]), IF n[5] = 1 THEN Conv(P, a[1], n[4]) ELSE Void)
    [] op = "asg" -> LET pl == a[1][2]
                         sv == Conv(P, a[2], n[3])
                     IN [m EXCEPT !.c = <<"V", StoreRes(a[2], sv)>>, !.st = Write(m.st, pl, sv)]
    [] op = "un" -> SetV(m, NumUn(n[3], a[1]))
    [] op = "not" -> LET t == Truth(a[1]) IN SetV(m, IF t = 9 THEN Unk ELSE <<1, 1 - t>>)
    [] op = "cast" -> SetV(m, IF a[1][1] = n[3] THEN a[1] ELSE Conv(P, a[1], n[3]))
    [] op = "cvt" -> SetV(m, Conv(P, a[1], n[3]))          \* through a parameter of type n[3]
    [] op = "calls" -> Call(P, m, n[3], m.cid, a)          \* a local function calls itself
    [] op = "pro" -> SetV(m, PromoteTo(a[1], n[3]))
    [] op = "m" -> SetV(m, PlaceV(a[1][2][1], Append(a[1][2][2], n[3])))
    [] op = "i" -> IF ~Known(a[2]) THEN Stop(m) ELSE Elem(m, a[1][2][1], a[1][2][2], AsIdx(a[2]), n[3])
    [] op = "ui" -> IF ~Known(a[2]) THEN Stop(m)
                    ELSE Elem(m, a[1][2][1], a[1][2][2], AsIdx(a[2]), a[1][2][3])
 \* a null reference denotes a place inside no object: only an access to it fails
    [] op = "*" -> SetV(m, PlaceV(a[1][2][1], a[1][2][2]))
    [] op = "addr" -> SetV(m, <<n[3], a[1][2]>>)
    [] op = "a2u" -> SetV(m, <<n[3], <<a[1][2][1], a[1][2][2], n[4]>>>>)
    [] op = "size" -> SetV(m, IntV(a[1][2][3]))
    [] op = "call" -> Call(P, m, n[3], 0, a)
    [] op = "cmp" -> LET pl == a[1][2]
                         r == NumBin(n[4], a[2], a[3])    \* the old value is read before the right side is evaluated
                     IN IF r[1] = -9 THEN [m EXCEPT !.c = <<"T", r[2], pl>>]
                        ELSE IF r[1] = -8 THEN Stop(m)
                        ELSE LET sv == Conv(P, r, n[3])
                             IN [m EXCEPT !.c = <<"V", StoreRes(r, sv)>>, !.st = Write(m.st, pl, sv)]
    [] op = "inc" -> LET pl == a[1][2]                     \* n[4]: 1 or -1, n[5]: 1 prefix
                         old == Read(m.st, pl)
                         one == IF old[1] = 5 THEN <<5, <<1, 0, 0, 0>>>> ELSE <<MaxT(old[1], 2), IF old[1] >= 6 THEN <<0, 1, 0>> ELSE 1>>
                         r == IF ~Known(old) THEN Unk ELSE NumBin(IF n[4] = 1 THEN "+" ELSE "-", old, one)
                         sv == Conv(P, r, n[3])
                     IN [m EXCEPT !.c = <<"V", IF n[5] = 1 THEN StoreRes(r, sv) ELSE old>>, !.st = Write(m.st, pl, sv)]
    [] op = "callf" -> LET fv == a[1]                      \* call through a function value
                       IN IF fv[2][1] = 0 THEN Throw(m, "nullcall") ELSE Call(P, m, fv[2][1], fv[2][2], Tail(a))
    [] op = "xor" -> LET x == Truth(a[1])  y == Truth(a[2]) IN SetV(m, IF x = 9 \/ y = 9 THEN Unk ELSE BoolV(x # y))
    [] op = "arr" -> SetV(m, <<n[3], [i \in 1..Len(a) |-> Conv(P, a[i], n[4])]>>)
    [] op = "new" -> [m EXCEPT !.c = <<"V", <<n[3], <<Len(m.st) + 1, <<>>>>>>>>, !.st = Append(m.st, Zero(P, n[4]))]
    [] op = "newa" -> IF ~Known(a[1]) THEN Stop(m)
                      ELSE LET cnt == AsIdx(a[1])  z == Zero(P, n[4])
                      IN IF cnt < 0 \/ cnt >= 1000000000 THEN Throw(m, "alloc")
                         ELSE IF cnt > 100000 THEN Stop(m)
                         ELSE [m EXCEPT !.c = <<"V", <<n[3], <<Len(m.st) + 1, <<>>, cnt>>>>>>,
                                        !.st = Append(m.st, <<0, [i \in 1..cnt |-> z]>>)]
    [] op = "tmp" -> [m EXCEPT !.c = <<"V", PlaceV(Len(m.st) + 1, <<>>)>>, !.st = Append(m.st, a[1])]   \* value to place
    [] op = "peq" -> SetV(m, LET pt(w) == IF w[1] = 9 THEN NullPtr ELSE IF w[1] = 10 THEN w[2][2] ELSE w[2]
                                 x == pt(a[1])  y == pt(a[2])
                             IN IF OddRef(x) \/ OddRef(y) THEN Unk ELSE BoolV((x[1] = y[1] /\ x[2] = y[2]) = (n[3] = "==")))
    [] op = "box" -> [m EXCEPT !.c = <<"V", ARef(n[3], <<Len(m.st) + 1, <<>>>>)>>, !.st = Append(m.st, Conv(P, a[1], n[3]))]
    [] op = "pbox" -> IF IsExt(P, n[3])                    \* reference to an auto ref: an extendable object tells its class
                      THEN (IF a[1][2][1] = 0 THEN Throw(m, "null") ELSE SetV(m, ARef(ObjType(m, a[1][2]), a[1][2])))
                      ELSE SetV(m, ARef(n[3], a[1][2]))
    [] op = "unbox" -> IF Derives(P, a[1][2][1], n[3]) THEN SetV(m, <<n[4], a[1][2][2]>>) ELSE Throw(m, "cast")
    [] op = "dcast" -> IF a[1][2][1] = 0 \/ Derives(P, ObjType(m, a[1][2]), n[3]) THEN SetV(m, <<n[4], a[1][2]>>) ELSE Throw(m, "cast")
    [] op = "typeis" -> IF a[1][1] = 10 THEN SetV(m, BoolV(a[1][2][1] = n[3]))
                        ELSE IF a[1][2][1] = 0 THEN Throw(m, "null") ELSE SetV(m, BoolV(ObjType(m, a[1][2]) = n[3]))
    [] op = "vcall" ->                                     \* n[3]: method, n[4]: static class (0: auto ref)
         LET pl == IF n[4] = 0 THEN a[1][2][2] ELSE a[1][2]
             bad == pl[1] = 0
             d == IF n[4] = 0 THEN a[1][2][1] ELSE IF bad THEN 0 ELSE ObjType(m, pl)
             f == IF d = 0 THEN 0 ELSE P.vt[n[3]][d]
         IN IF n[4] # 0 /\ bad THEN Throw(m, "null")
            ELSE IF f = 0 THEN Throw(m, "nomethod")
            ELSE IF bad /\ IsExt(P, d) THEN Throw(m, "null")
            ELSE Call(P, m, f, 0, <<<<-2, pl>>>> \o Tail(a))
    [] op = "aref=" -> SetV(m, Void)
    [] op = "toaa" -> SetV(m, <<11, <<n[3], <<a[1][2][1], a[1][2][2]>>, a[1][2][3]>>>>)     \* T[] to auto[]
    [] op = "aai" -> IF ~Known(a[2]) THEN Stop(m)
                     ELSE IF AsIdx(a[2]) < 0 \/ AsIdx(a[2]) >= a[1][2][3] THEN Throw(m, "oob")
                     ELSE SetV(m, ARef(a[1][2][1], <<a[1][2][2][1], Append(a[1][2][2][2], AsIdx(a[2]) + 1)>>))
    [] op = "aasize" -> SetV(m, IntV(a[1][2][3]))
    [] op = "fromaa" -> IF a[1][2][1] # n[3] THEN Throw(m, "cast")                          \* auto[] to T[]
                        ELSE SetV(m, <<n[4], <<a[1][2][2][1], a[1][2][2][2], a[1][2][3]>>>>)
    [] op = "fromaan" -> IF a[1][2][1] # n[3] \/ a[1][2][3] # n[5] THEN Throw(m, "cast")   \* auto[] to T[n]
                         ELSE SetV(m, <<n[4], Read(m.st, a[1][2][2])[2]>>)
    [] op = "reset" -> IF a[1][2][1] = 0 THEN Throw(m, "nullcall") ELSE SetV(m, BoolV(a[1][2][2] = 0 \/ m.co[a[1][2][2]].sus = <<>>))
    [] op = "throw" -> ThrowObj(m, n[3], NoObj)
    [] op = "throwo" -> IF a[1][2][2][1] = 0 THEN Stop(m) ELSE ThrowObj(m, P.names[a[1][2][1]], a[1])
    [] op = "rethrow" -> IF a[2][2][2][1] # 0 THEN ThrowObj(m, P.names[a[2][2][1]], a[2]) ELSE ThrowObj(m, a[1][2], NoObj)
    [] op = "asrt" -> LET t == Truth(a[1]) IN IF t = 9 THEN Stop(m) ELSE IF t = 1 THEN SetV(m, Void) ELSE Throw(m, n[3])
    [] op = "evm" -> Event(m, "m", a[1], Void)
    [] OTHER -> Assert(FALSE, <<"Apply", n>>)

\* evaluation of expression x
Eval(P, m, x) ==
  LET n == P.nodes[x]
      op == n[1]
  IN CASE op = "k" -> SetV(m, n[3])
       [] op = "rl" -> SetV(m, m.st[m.env[n[3]]])         \* read a local, captured, global variable
       [] op = "rg" -> SetV(m, m.st[n[3]])
       [] op = "ru" -> SetV(m, m.st[EnvOf(m, n[3])])
       [] op = "l" -> SetV(m, PlaceV(m.env[n[3]], <<>>))  \* their places
       [] op = "g" -> SetV(m, PlaceV(n[3], <<>>))
       [] op = "u" -> SetV(m, PlaceV(EnvOf(m, n[3]), <<>>))
       [] op \in {"and", "or", "cond"} -> Push(m, <<"E", n[2][1]>>, <<op, x>>)
       [] op = "clo" -> [m EXCEPT !.c = <<"V", <<n[3], <<n[4], Len(m.co) + 1>>>>>>,
                                  !.co = Append(m.co, [f |-> n[4], env |-> MkClosure(m, n[5], P.nvar), sus |-> <<>>])]
       [] op = "glist" -> Push(m, <<"E", n[2][1]>>, <<"gl0", x>>)      \* list comprehension
       [] Len(n[2]) = 0 -> Apply(P, m, n, <<>>)
       [] OTHER -> [m EXCEPT !.c = <<"E", n[2][1]>>, !.k = <<<<"a", x, <<>>>>, m.k>>]

\* statement x
Exec(P, m, x) ==
  LET n == P.nodes[x]
      op == n[1]
  IN CASE op = "x" -> Push(m, <<"E", n[2][1]>>, <<"drop">>)
       [] op = "blk" -> IF Len(n[2]) = 0 THEN [m EXCEPT !.c = <<"N">>]
                        ELSE Push(m, <<"S", n[2][1]>>, <<"blk", x, 1>>)
       [] op = "dcl" ->        \* <<"dcl", <<init>> or <<>>, type, kind, index, fresh>>
            IF Len(n[2]) = 1 THEN Push(m, <<"E", n[2][1]>>, <<"dcl", x>>)
            ELSE [DeclVar(m, n[4], n[5], n[6], Zero(P, n[3])) EXCEPT !.c = <<"N">>]
       [] op = "if" -> Push(m, <<"E", n[2][1]>>, <<"if", x>>)
       [] op = "while" -> Push(m, <<"E", n[2][1]>>, <<"while", x>>)
       [] op = "do" -> Push(m, <<"S", n[2][2]>>, <<"do", x>>)
       [] op = "for" -> Push(m, <<"S", n[2][1]>>, <<"for0", x>>)     \* kids: init, cond, inc, body
       [] op = "sw" -> Push(m, <<"E", n[2][1]>>, <<"sw", x>>)
       [] op = "try" -> Push(m, <<"E", n[2][1]>>, <<"try0", x>>)     \* protected call
       [] op = "brk" -> [m EXCEPT !.c = <<"B", n[3]>>]
       [] op = "cnt" -> [m EXCEPT !.c = <<"C", n[3]>>]
       [] op = "ret" -> IF Len(n[2]) = 0 THEN [m EXCEPT !.c = <<"R", Void>>] ELSE Push(m, <<"E", n[2][1]>>, <<"ret", n[3]>>)
       [] op = "yld" -> IF Len(n[2]) = 0 THEN Yield(P, m, Void) ELSE Push(m, <<"E", n[2][1]>>, <<"yld", n[3]>>)
       [] OTHER -> Assert(FALSE, <<"Exec", n>>)

BoolOp(m, t) == IF t = 9 THEN SetV(m, Unk) ELSE SetV(m, <<1, t>>)

\* the first branch of a switch whose label equals v; 0: none
RECURSIVE FindCase(_, _, _)
FindCase(cs, v, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i][1][1] = "c" /\ NumBin("==", v, cs[i][1][2]) = <<1, 1>> THEN i ELSE FindCase(cs, v, i + 1)
RECURSIVE FindDefault(_, _)
FindDefault(cs, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i][1][1] = "d" THEN i ELSE FindDefault(cs, i + 1)

\* value v reaches the innermost frame
Value(P, m, v) ==
  IF m.k = <<>> THEN Assert(FALSE, <<"value at function end", v>>) ELSE
  LET f == m.k[1]
      rest == m.k[2]
      tag == f[1]
      md == [m EXCEPT !.k = rest]
  IN CASE tag = "a" -> LET n == P.nodes[f[2]]
                           got == Append(f[3], v)
                           \* operand 0: the value of the place that was evaluated first, read at this point
                           vals == IF Len(got) < Len(n[2]) /\ n[2][Len(got) + 1] = 0
                                   THEN Append(got, IF got[1] = Poison THEN Poison ELSE IF got[1][2][1] = 0 THEN Unk ELSE Read(m.st, got[1][2])) ELSE got
                       IN IF Len(got) < Len(n[2]) /\ n[2][Len(got) + 1] = 0 /\ got[1] # Poison /\ got[1][2][1] = 0 THEN Throw(m, "null")
                          ELSE IF Len(vals) = Len(n[2]) THEN Apply(P, md, n, vals)
                          ELSE [m EXCEPT !.c = <<"E", n[2][Len(vals) + 1]>>, !.k = <<<<"a", f[2], vals>>, rest>>]
       [] tag = "drop" -> [md EXCEPT !.c = <<"N">>]
       [] tag = "if" -> LET t == Truth(v)  n == P.nodes[f[2]]
                        IN IF t = 9 THEN Stop(m)
                           ELSE IF t = 1 THEN [md EXCEPT !.c = <<"S", n[2][2]>>]
                           ELSE IF Len(n[2]) = 3 THEN [md EXCEPT !.c = <<"S", n[2][3]>>]
                           ELSE [md EXCEPT !.c = <<"N">>]
       [] tag = "dcl" -> LET n == P.nodes[f[2]]
                         IN [DeclVar(md, n[4], n[5], n[6], Conv(P, v, n[3])) EXCEPT !.c = <<"N">>]
       [] tag = "while" -> LET t == Truth(v)
                           IN IF t = 9 THEN Stop(m) ELSE IF t = 0 THEN [md EXCEPT !.c = <<"N">>]
                              ELSE [m EXCEPT !.c = <<"S", P.nodes[f[2]][2][2]>>, !.k = <<<<"wbody", f[2]>>, rest>>]
       [] tag = "doc" -> LET t == Truth(v)
                         IN IF t = 9 THEN Stop(m) ELSE IF t = 0 THEN [md EXCEPT !.c = <<"N">>]
                            ELSE [m EXCEPT !.c = <<"S", P.nodes[f[2]][2][2]>>, !.k = <<<<"do", f[2]>>, rest>>]
       [] tag = "for" -> LET t == Truth(v)
                         IN IF t = 9 THEN Stop(m) ELSE IF t = 0 THEN [Close(md, P.nodes[f[2]][3]) EXCEPT !.c = <<"N">>]
                            ELSE [m EXCEPT !.c = <<"S", P.nodes[f[2]][2][4]>>, !.k = <<<<"fbody", f[2]>>, rest>>]
       [] tag = "ret" -> LET sv == IF f[2] = 0 THEN v ELSE RetConv(P, v, f[2])
                         IN [md EXCEPT !.c = <<"R", sv>>]
       [] tag = "yld" -> Yield(P, md, RetConv(P, v, f[2]))
       [] tag = "and" -> LET t == Truth(v)
                         IN IF t = 0 THEN SetV(md, <<1, 0>>) ELSE IF t = 1 THEN [m EXCEPT !.c = <<"E", P.nodes[f[2]][2][2]>>, !.k = <<<<"bool">>, rest>>] ELSE Stop(m)
       [] tag = "or" -> LET t == Truth(v)
                        IN IF t = 1 THEN SetV(md, <<1, 1>>) ELSE IF t = 0 THEN [m EXCEPT !.c = <<"E", P.nodes[f[2]][2][2]>>, !.k = <<<<"bool">>, rest>>] ELSE Stop(m)
       [] tag = "bool" -> BoolOp(md, Truth(v))
       [] tag = "cond" -> LET t == Truth(v)
                          IN IF t = 9 THEN Stop(m) ELSE [m EXCEPT !.c = <<"E", P.nodes[f[2]][2][3 - t]>>, !.k = <<<<"cnv", P.nodes[f[2]][3]>>, rest>>]
       [] tag = "cnv" -> SetV(md, IF f[2] <= 7 /\ f[2] > 0 THEN PromoteTo(v, f[2]) ELSE v)
       [] tag = "sw" -> LET n == P.nodes[f[2]]
                            i == FindCase(n[3], v, 1)
                            j == IF i = 0 THEN FindDefault(n[3], 1) ELSE i
                        IN IF ~Known(v) THEN Stop(m) ELSE IF j = 0 THEN [md EXCEPT !.c = <<"N">>]
                           ELSE [m EXCEPT !.c = <<"S", n[3][j][2]>>, !.k = <<<<"swb", f[2], j>>, rest>>]
       \* protected call: <<"try", <<function, success, failure>>, result variable or <<>>, message variable, object variable>>
       [] tag = "try0" -> IF v[2][1] = 0 THEN Throw(md, "nullcall")
                          ELSE Call(P, [m EXCEPT !.k = <<<<"try", f[2]>>, rest>>, !.tr = m.tr + 1], v[2][1], v[2][2], <<>>)
       [] tag = "try" -> LET n == P.nodes[f[2]]
                             m1 == [md EXCEPT !.tr = m.tr - 1]
                             m2 == IF Len(n[3]) = 0 THEN m1 ELSE DeclVar(m1, n[3][1], n[3][2], 0, Conv(P, v, n[3][3]))
                         IN [m2 EXCEPT !.c = <<"S", n[2][2]>>]
       [] tag = "gl0" -> Call(P, [m EXCEPT !.k = <<<<"gl", f[2], v, <<>>>>, rest>>], v[2][1], v[2][2], <<>>)
       [] tag = "gl" -> LET n == P.nodes[f[2]]  fv == f[3]
                        IN IF m.co[fv[2][2]].sus = <<>>
                           THEN [md EXCEPT !.c = <<"V", <<n[3], <<Len(m.st) + 1, <<>>, Len(f[4])>>>>>>, !.st = Append(m.st, <<0, f[4]>>)]
                           ELSE Call(P, [m EXCEPT !.k = <<<<"gl", f[2], fv, Append(f[4], Conv(P, v, n[4]))>>, rest>>], fv[2][1], fv[2][2], <<>>)
       [] OTHER -> Assert(FALSE, <<"Value", f, v>>)

\* a statement ended normally
Done(P, m) ==
  IF m.k = <<>>
  THEN (IF m.fn = 0 THEN [m EXCEPT !.c = <<"R", Void>>]
        ELSE IF P.fns[m.fn].ret = TVoid THEN [m EXCEPT !.c = <<"R", Void>>]
        ELSE Throw(m, "noret"))
  ELSE
  LET f == m.k[1]
      rest == m.k[2]
      tag == f[1]
      md == [m EXCEPT !.k = rest]
  IN CASE tag = "blk" -> LET n == P.nodes[f[2]]
                         IN IF f[3] = Len(n[2]) THEN [Close(md, n[3]) EXCEPT !.c = <<"N">>]
                            ELSE [m EXCEPT !.c = <<"S", n[2][f[3] + 1]>>, !.k = <<<<"blk", f[2], f[3] + 1>>, rest>>]
       [] tag = "wbody" -> [m EXCEPT !.c = <<"E", P.nodes[f[2]][2][1]>>, !.k = <<<<"while", f[2]>>, rest>>]
       [] tag = "do" -> [m EXCEPT !.c = <<"E", P.nodes[f[2]][2][1]>>, !.k = <<<<"doc", f[2]>>, rest>>]
       [] tag = "for0" -> [m EXCEPT !.c = <<"E", P.nodes[f[2]][2][2]>>, !.k = <<<<"for", f[2]>>, rest>>]
       [] tag = "fbody" -> [Close(m, P.nodes[f[2]][3]) EXCEPT !.c = <<"S", P.nodes[f[2]][2][3]>>, !.k = <<<<"for0", f[2]>>, rest>>]
       [] tag = "swb" -> LET n == P.nodes[f[2]]
                         IN IF f[3] = Len(n[3]) THEN [md EXCEPT !.c = <<"N">>]
                            ELSE [m EXCEPT !.c = <<"S", n[3][f[3] + 1][2]>>, !.k = <<<<"swb", f[2], f[3] + 1>>, rest>>]
       [] OTHER -> Assert(FALSE, <<"Done", f>>)

LoopTags == {"wbody", "do", "fbody", "for0"}

\* break (isB) or continue out of n loops
Jump(P, m, isB, n) ==
  LET f == m.k[1]
      rest == m.k[2]
      tag == f[1]
      md == [m EXCEPT !.k = rest]
  IN IF tag = "blk" THEN Close(md, P.nodes[f[2]][3])
     ELSE IF tag \in LoopTags \/ tag = "swb"
     THEN LET ismine == n = 1 /\ (isB \/ tag # "swb")
              cl == IF tag = "fbody" THEN P.nodes[f[2]][3] ELSE <<>>
          IN IF ismine
             THEN (IF isB THEN [Close(md, cl) EXCEPT !.c = <<"N">>] ELSE [m EXCEPT !.c = <<"N">>])
             ELSE [Close(md, cl) EXCEPT !.c = <<IF isB THEN "B" ELSE "C", IF tag = "swb" /\ ~isB THEN n ELSE n - 1>>]
     ELSE md

\* return: close the scopes that are left, innermost first
Unwind(P, m, v) ==
  IF m.k = <<>> THEN Return(P, m, v)
  ELSE LET f == m.k[1]
           md == [m EXCEPT !.k = m.k[2]]
       IN IF f[1] = "blk" THEN Close(md, P.nodes[f[2]][3])
          ELSE IF f[1] = "fbody" THEN Close(md, P.nodes[f[2]][3])
          ELSE md

\* an error leaves frames up to the nearest protected call
Handle(P, m) ==
  LET f == m.c[2]
      x == IF Len(m.c) = 4 THEN m.c[4] ELSE NoObj
  IN IF m.k = <<>>
     THEN LET m1 == Close(m, P.fns[m.fn].cl)  a == m.up[1]
          IN [m1 EXCEPT !.k = a.k, !.env = a.env, !.cid = a.cid, !.fn = a.fn, !.up = m.up[2], !.dep = m.dep - 1]
     ELSE LET g == m.k[1]
              md == [m EXCEPT !.k = m.k[2]]
          IN IF g[1] = "blk" \/ g[1] = "fbody" THEN Close(md, P.nodes[g[2]][3])
             ELSE IF g[1] # "try" THEN md
             ELSE LET n == P.nodes[g[2]]
                  IN [DeclVar(DeclVar(md, n[4][1], n[4][2], 0, <<8, f>>), n[5][1], n[5][2], 0, x) EXCEPT
                         !.tr = m.tr - 1, !.c = <<"S", n[2][3]>>]

Step(P, m) ==
  LET c == m.c  o == c[1]
  IN CASE o = "E" -> Eval(P, m, c[2])
       [] o = "V" -> Value(P, m, c[2])
       [] o = "S" -> Exec(P, m, c[2])
       [] o = "N" -> Done(P, m)
       [] o = "R" -> Unwind(P, m, c[2])
       [] o = "B" -> Jump(P, m, TRUE, c[2])
       [] o = "C" -> Jump(P, m, FALSE, c[2])
       [] o = "T" -> Handle(P, m)
       [] OTHER -> m

\* control positions where the machine waits: an event, the end, a fault, open behaviour
Waits(m) == m.c[1] \in {"EV", "X", "U"} \/ (m.c[1] = "T" /\ m.tr = 0)

RECURSIVE Run(_, _, _)
Run(P, m, n) == IF n = 0 \/ Waits(m) THEN m ELSE Run(P, Step(P, m), n - 1)

Init0(P) == [c |-> <<"S", P.main>>, k |-> <<>>, env |-> NoEnv(P.nvar), cid |-> 0, fn |-> 0, up |-> <<>>, dep |-> 0, tr |-> 0,
             st |-> [i \in 1..Len(P.gl) |-> Zero(P, P.gl[i])], co |-> <<>>, tp |-> 0]
=============================================================================
