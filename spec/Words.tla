------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width integer arithmetic and exact binary fractions.              *)
(* TLC integers are 32 bit and trap on overflow, so wrap-around arithmetic *)
(* is defined here on limbs.                                               *)
(*   int  : a TLC integer in -2^31 .. 2^31-1                               *)
(*   long : <<l0,l1,l2,l3>>, little endian 16 bit limbs (two's complement) *)
(*   flt  : <<cls, m, e>>: cls 0 finite m*2^e (m odd, or m = 0 and e = 0), *)
(*          1 NaN, 2 +inf, 3 -inf, 4 "-0", 9 outside the exact subset      *)
(***************************************************************************)
EXTENDS Integers, Sequences

MinInt == -2147483647 - 1
MaxInt == 2147483647
B16 == 65536

Lo16(a) == a % B16                     \* TLC: % is non-negative for positive divisors
Hi16(a) == a \div B16                  \* floor
Sgn16(h) == LET x == h % B16 IN IF x >= 32768 THEN x - B16 ELSE x
MkInt(hi, lo) == Sgn16(hi) * B16 + lo  \* lo in 0..65535

Small(a) == a < 1073741824 /\ a > -1073741824

IAdd(a, b) == IF Small(a) /\ Small(b) THEN a + b
              ELSE LET lo == Lo16(a) + Lo16(b) IN MkInt(Hi16(a) + Hi16(b) + lo \div B16, lo % B16)
INeg(a) == IF a = MinInt THEN a ELSE -a
INot(a) == -1 - a
ISub(a, b) == IF Small(a) /\ Small(b) THEN a - b ELSE IAdd(IAdd(a, INot(b)), 1)

\* --- limb sequences (unsigned, little endian, 16 bit) ---
L0 == <<0, 0, 0, 0>>
OfInt(a) == LET s == IF a < 0 THEN 65535 ELSE 0 IN <<Lo16(a), Hi16(a) % B16, s, s>>
ToInt(l) == MkInt(l[2], l[1])          \* truncation
FitsInt(l) == \/ l[3] = 0 /\ l[4] = 0 /\ l[2] < 32768
              \/ l[3] = 65535 /\ l[4] = 65535 /\ l[2] >= 32768
LIsNeg(l) == l[4] >= 32768
LNot(l) == <<65535 - l[1], 65535 - l[2], 65535 - l[3], 65535 - l[4]>>
LAdd(a, b) ==
  LET c1 == a[1] + b[1]
      c2 == a[2] + b[2] + c1 \div B16
      c3 == a[3] + b[3] + c2 \div B16
      c4 == a[4] + b[4] + c3 \div B16
  IN <<c1 % B16, c2 % B16, c3 % B16, c4 % B16>>
LNeg(a) == LAdd(LNot(a), <<1, 0, 0, 0>>)
LSub(a, b) == LAdd(LAdd(a, LNot(b)), <<1, 0, 0, 0>>)
Byte(l, i) == IF i % 2 = 0 THEN l[i \div 2 + 1] % 256 ELSE l[i \div 2 + 1] \div 256   \* i in 0..7

LMul(a, b) ==
  LET x0 == a[1] % 256  x1 == a[1] \div 256  x2 == a[2] % 256  x3 == a[2] \div 256
      x4 == a[3] % 256  x5 == a[3] \div 256  x6 == a[4] % 256  x7 == a[4] \div 256
      y0 == b[1] % 256  y1 == b[1] \div 256  y2 == b[2] % 256  y3 == b[2] \div 256
      y4 == b[3] % 256  y5 == b[3] \div 256  y6 == b[4] % 256  y7 == b[4] \div 256
      c0 == x0*y0
      c1 == x0*y1 + x1*y0 + c0 \div 256
      c2 == x0*y2 + x1*y1 + x2*y0 + c1 \div 256
      c3 == x0*y3 + x1*y2 + x2*y1 + x3*y0 + c2 \div 256
      c4 == x0*y4 + x1*y3 + x2*y2 + x3*y1 + x4*y0 + c3 \div 256
      c5 == x0*y5 + x1*y4 + x2*y3 + x3*y2 + x4*y1 + x5*y0 + c4 \div 256
      c6 == x0*y6 + x1*y5 + x2*y4 + x3*y3 + x4*y2 + x5*y1 + x6*y0 + c5 \div 256
      c7 == x0*y7 + x1*y6 + x2*y5 + x3*y4 + x4*y3 + x5*y2 + x6*y1 + x7*y0 + c6 \div 256
  IN <<(c0 % 256) + 256 * (c1 % 256), (c2 % 256) + 256 * (c3 % 256),
       (c4 % 256) + 256 * (c5 % 256), (c6 % 256) + 256 * (c7 % 256)>>

Tiny(a) == a < 46340 /\ a > -46340
IMul(a, b) == IF Tiny(a) /\ Tiny(b) THEN a * b ELSE ToInt(LMul(OfInt(a), OfInt(b)))

\* unsigned comparison of limb sequences
LULt(a, b) == IF a[4] # b[4] THEN a[4] < b[4] ELSE IF a[3] # b[3] THEN a[3] < b[3]
              ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
Flip(a) == <<a[1], a[2], a[3], (a[4] + 32768) % B16>>
LLt(a, b) == LULt(Flip(a), Flip(b))
LAbs(a) == IF LIsNeg(a) THEN LNeg(a) ELSE a

Shl1(a, bit) == LET c1 == a[1]*2 + bit  c2 == a[2]*2 + c1 \div B16  c3 == a[3]*2 + c2 \div B16  c4 == a[4]*2 + c3 \div B16
                IN <<c1 % B16, c2 % B16, c3 % B16, c4 % B16>>
P2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64
           [] n = 7 -> 128 [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024 [] n = 11 -> 2048 [] n = 12 -> 4096
           [] n = 13 -> 8192 [] n = 14 -> 16384 [] n = 15 -> 32768 [] n = 16 -> 65536 [] OTHER -> 2^n
LBit(a, i) == (a[i \div 16 + 1] \div P2(i % 16)) % 2

RECURSIVE LUDivStep(_, _, _, _, _)
LUDivStep(a, b, i, q, r) ==           \* restoring division, bit i downwards
  IF i < 0 THEN <<q, r>>
  ELSE LET over == r[4] >= 32768
           r1 == Shl1(r, LBit(a, i))
       IN IF over \/ ~LULt(r1, b) THEN LUDivStep(a, b, i - 1, Shl1(q, 1), LSub(r1, b))
          ELSE LUDivStep(a, b, i - 1, Shl1(q, 0), r1)
LUDivMod(a, b) == LUDivStep(a, b, 63, L0, L0)

\* truncating division; the caller rules out b = 0 and Min / -1
IDiv(a, b) == IF a = MinInt \/ b = MinInt
              THEN ToInt(LET qr == LUDivMod(LAbs(OfInt(a)), LAbs(OfInt(b))) IN IF (a < 0) # (b < 0) THEN LNeg(qr[1]) ELSE qr[1])
              ELSE LET x == IF a < 0 THEN -a ELSE a  y == IF b < 0 THEN -b ELSE b  q == x \div y
                   IN IF (a < 0) # (b < 0) THEN -q ELSE q
IMod(a, b) == ISub(a, IMul(IDiv(a, b), b))
LDiv(a, b) == IF FitsInt(a) /\ FitsInt(b) /\ ToInt(a) # MinInt THEN OfInt(IDiv(ToInt(a), ToInt(b)))
              ELSE LET qr == LUDivMod(LAbs(a), LAbs(b)) IN IF LIsNeg(a) # LIsNeg(b) THEN LNeg(qr[1]) ELSE qr[1]
LMod(a, b) == LSub(a, LMul(LDiv(a, b), b))

\* bit operations on 16 bit limbs, by nibbles
Nib(f(_, _), a, b) == f(a % 2, b % 2) + 2 * f((a \div 2) % 2, (b \div 2) % 2) + 4 * f((a \div 4) % 2, (b \div 4) % 2) + 8 * f((a \div 8) % 2, (b \div 8) % 2)
W16(f(_, _), a, b) == Nib(f, a, b) + 16 * Nib(f, a \div 16, b \div 16) + 256 * Nib(f, a \div 256, b \div 256) + 4096 * Nib(f, a \div 4096, b \div 4096)
BAnd(x, y) == x * y
BOr(x, y) == x + y - x * y
BXor(x, y) == x + y - 2 * x * y
LBitOp(f(_, _), a, b) == <<W16(f, a[1], b[1]), W16(f, a[2], b[2]), W16(f, a[3], b[3]), W16(f, a[4], b[4])>>
IBitOp(f(_, _), a, b) == MkInt(W16(f, Hi16(a) % B16, Hi16(b) % B16), W16(f, Lo16(a), Lo16(b)))

\* shifts: the caller rules out amounts outside 0..width-1
LShl(a, n) ==
  LET w == n \div 16  k == P2(n % 16)
      g(i) == IF i < 1 THEN 0 ELSE a[i]
      \* a[i]*k can reach 2^31: split the limb in two bytes
      mulHi(x) == ((x \div 256) * k + ((x % 256) * k) \div 256) \div 256
      mulLo(x) == (((x \div 256) * k) % 256) * 256 + ((x % 256) * k)
      lo(x) == mulLo(x) % B16
      r(i) == (lo(g(i - w)) + mulHi(g(i - w - 1))) % B16
  IN <<r(1), r(2), r(3), r(4)>>
LShr(a, n) ==                          \* arithmetic
  LET w == n \div 16  k == P2(n % 16)  up == IF LIsNeg(a) THEN 65535 ELSE 0
      g(i) == IF i > 4 THEN up ELSE a[i]
      r(i) == (g(i + w) \div k) + (((g(i + w + 1) % k) * (B16 \div k)) % B16)
  IN <<r(1), r(2), r(3), r(4)>>
IShl(a, n) == ToInt(LShl(OfInt(a), n))
IShr(a, n) == ToInt(LShr(OfInt(a), n))

RECURSIVE LPow(_, _, _)
LPow(base, n, acc) == IF n = 0 THEN acc
                      ELSE LPow(IF n = 1 THEN base ELSE LMul(base, base), n \div 2, IF n % 2 = 1 THEN LMul(acc, base) ELSE acc)
LPowI(b, n) == LPow(b, n, <<1, 0, 0, 0>>)
IPow(b, n) == ToInt(LPowI(OfInt(b), n))

\* --- exact binary fractions ---
FNaN == <<1, 0, 0>>
FInf == <<2, 0, 0>>
FNInf == <<3, 0, 0>>
FUnk == <<9, 0, 0>>
RECURSIVE FNorm(_, _)
FNorm(m, e) == IF m = 0 THEN <<0, 0, 0>>
               ELSE IF m % 2 # 0 THEN <<0, m, e>>
               ELSE IF m % 256 = 0 THEN FNorm(m \div 256, e + 8)
               ELSE FNorm(m \div 2, e + 1)
FOfInt(a) == FNorm(a, 0)
RECURSIVE LStrip(_, _)
LStrip(a, e) == IF e > 62 THEN <<a, e>> ELSE IF a[1] % 2 = 0 THEN LStrip(LShr(a, 1), e + 1) ELSE <<a, e>>
FOfLong(a) == IF a = L0 THEN <<0, 0, 0>>
              ELSE LET s == LStrip(a, 0) IN IF FitsInt(s[1]) THEN <<0, ToInt(s[1]), s[2]>> ELSE FUnk
AbsI(m) == IF m < 0 THEN -m ELSE m
FNeg(x) == CASE x[1] = 0 /\ x[2] # 0 -> IF x[2] = MinInt THEN FUnk ELSE <<0, -x[2], x[3]>>
             [] x[1] = 0 -> <<4, 0, 0>>
             [] x[1] = 4 -> <<0, 0, 0>>
             [] x[1] = 1 -> x
             [] x[1] = 2 -> FNInf
             [] x[1] = 3 -> FInf
             [] OTHER -> FUnk
FFin(x) == x[1] = 0
\* shift mantissa left by d if it stays within 30 bits
CanShl(m, d) == d <= 30 /\ AbsI(m) < 2^(30 - d)
FNegQ(x) == x[1] \in {3, 4} \/ (x[1] = 0 /\ x[2] < 0)       \* sign bit
FZero(x) == x[1] = 4 \/ (x[1] = 0 /\ x[2] = 0)
FSigned(neg, x) == IF neg THEN FNeg(x) ELSE x
FAdd(x, y) == IF x[1] = 9 \/ y[1] = 9 THEN FUnk
              ELSE IF x[1] = 1 \/ y[1] = 1 THEN FNaN
              ELSE IF x[1] \in {2, 3} THEN (IF y[1] \in {2, 3} /\ y[1] # x[1] THEN FNaN ELSE x)
              ELSE IF y[1] \in {2, 3} THEN y
              ELSE IF FZero(x) /\ FZero(y) THEN (IF x[1] = 4 /\ y[1] = 4 THEN x ELSE <<0, 0, 0>>)
              ELSE IF FZero(x) THEN y ELSE IF FZero(y) THEN x
              ELSE LET e == IF x[3] < y[3] THEN x[3] ELSE y[3]
                   IN IF CanShl(x[2], x[3] - e) /\ CanShl(y[2], y[3] - e)
                      THEN FNorm(x[2] * 2^(x[3] - e) + y[2] * 2^(y[3] - e), e) ELSE FUnk
FSub(x, y) == FAdd(x, FNeg(y))
FMul(x, y) == LET neg == FNegQ(x) # FNegQ(y)
              IN IF x[1] = 9 \/ y[1] = 9 THEN FUnk
              ELSE IF x[1] = 1 \/ y[1] = 1 THEN FNaN
              ELSE IF x[1] \in {2, 3} \/ y[1] \in {2, 3} THEN (IF FZero(x) \/ FZero(y) THEN FNaN ELSE FSigned(neg, FInf))
              ELSE IF FZero(x) \/ FZero(y) THEN FSigned(neg, <<0, 0, 0>>)
              ELSE IF Tiny(x[2]) /\ Tiny(y[2]) THEN <<0, x[2] * y[2], x[3] + y[3]>>
              ELSE FUnk
FDiv(x, y) == LET neg == FNegQ(x) # FNegQ(y)
              IN IF x[1] = 9 \/ y[1] = 9 THEN FUnk
              ELSE IF x[1] = 1 \/ y[1] = 1 THEN FNaN
              ELSE IF x[1] \in {2, 3} THEN (IF y[1] \in {2, 3} THEN FNaN ELSE FSigned(neg, FInf))
              ELSE IF y[1] \in {2, 3} THEN FSigned(neg, <<0, 0, 0>>)
              ELSE IF FZero(y) THEN (IF FZero(x) THEN FNaN ELSE FSigned(neg, FInf))
              ELSE IF FZero(x) THEN FSigned(neg, <<0, 0, 0>>)
              ELSE IF x[2] # MinInt /\ y[2] # MinInt /\ AbsI(x[2]) % AbsI(y[2]) = 0
                   THEN LET q == AbsI(x[2]) \div AbsI(y[2]) IN FNorm(IF neg THEN -q ELSE q, x[3] - y[3])
              ELSE FUnk
\* comparison: -1, 0, 1, 2 unordered, 9 unknown
FCmp(x, y) ==
  LET z(v) == IF v[1] = 4 THEN <<0, 0, 0>> ELSE v
      a == z(x)  b == z(y)
      sg(m) == IF m > 0 THEN 1 ELSE IF m < 0 THEN -1 ELSE 0
  IN IF a[1] = 9 \/ b[1] = 9 THEN 9
     ELSE IF a[1] = 1 \/ b[1] = 1 THEN 2
     ELSE IF a = b THEN 0
     ELSE IF a[1] = 2 \/ b[1] = 3 THEN 1
     ELSE IF a[1] = 3 \/ b[1] = 2 THEN -1
     ELSE IF sg(a[2]) # sg(b[2]) THEN (IF sg(a[2]) > sg(b[2]) THEN 1 ELSE -1)
     ELSE LET e == IF a[3] < b[3] THEN a[3] ELSE b[3]
          IN IF CanShl(a[2], a[3] - e) /\ CanShl(b[2], b[3] - e)
             THEN LET p == a[2] * 2^(a[3] - e)  q == b[2] * 2^(b[3] - e) IN IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE 0
             ELSE 9
\* truncation to long (limbs); <<ok, limbs>>
FToLong(x) ==
  IF x[1] = 4 THEN <<TRUE, L0>>
  ELSE IF ~FFin(x) THEN <<FALSE, L0>>
  ELSE IF x[2] = 0 THEN <<TRUE, L0>>
  ELSE IF x[3] >= 0 THEN (IF x[3] <= 31 /\ x[2] # MinInt THEN <<TRUE, LShl(OfInt(x[2]), x[3])>> ELSE <<FALSE, L0>>)
  ELSE IF x[3] < -31 THEN <<TRUE, L0>>
  ELSE LET q == IF x[3] = -31 THEN 0 ELSE AbsI(x[2]) \div 2^(-x[3]) IN <<TRUE, OfInt(IF x[2] < 0 THEN -q ELSE q)>>
FIsFloat32(x) == IF FFin(x) THEN AbsI(x[2]) < 16777216 /\ x[3] > -120 /\ x[3] < 100 ELSE TRUE
=============================================================================
