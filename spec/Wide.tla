-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Integer arithmetic beyond TLC's 32-bit integers, in plain TLA+.         *)
(*                                                                         *)
(* A WIDE number is a pair <<hi, lo>> standing for  hi * 2^31 + lo  with   *)
(* 0 <= lo < 2^31 and hi any 32-bit integer, so it covers -2^62 .. 2^62-1. *)
(***************************************************************************)
EXTENDS Integers, Sequences

M31 == 2147483647                      \* 2^31 - 1, the largest TLC integer

Pow2Tab == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
              16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
              4194304, 8388608, 16777216, 33554432, 67108864, 134217728,
              268435456, 536870912, 1073741824 >>
P2(n) == Pow2Tab[n + 1]                \* 2^n for n in 0..30

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

WZero == << 0, 0 >>

\* WIDE from a TLC integer (which may be negative)
WOf(x) == IF x >= 0 THEN << 0, x >>
          ELSE << -1, (M31 + x) + 1 >>

WAdd(a, b) ==
  IF a[2] > M31 - b[2]
  THEN << a[1] + b[1] + 1, (a[2] - (M31 - b[2])) - 1 >>
  ELSE << a[1] + b[1], a[2] + b[2] >>

WNeg(a) == IF a[2] = 0 THEN << -a[1], 0 >>
           ELSE << (-a[1]) - 1, (M31 - a[2]) + 1 >>

WSub(a, b) ==
  IF a[2] >= b[2] THEN << a[1] - b[1], a[2] - b[2] >>
  ELSE << (a[1] - b[1]) - 1, (a[2] + (M31 - b[2])) + 1 >>

WIsNeg(a) == a[1] < 0
WAbs(a) == IF WIsNeg(a) THEN WNeg(a) ELSE a
WLess(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
WMin(a, b) == IF WLess(a, b) THEN a ELSE b
WMax(a, b) == IF WLess(a, b) THEN b ELSE a

\* does the wide number fit a TLC integer, and its value if it does
WFits(a) == a[1] \in {-1, 0}
WInt(a) == IF a[1] = 0 THEN a[2] ELSE (a[2] - M31) - 1

\* a * 2^s for 0 <= s <= 30
WShl(a, s) ==
  IF s = 0 THEN a
  ELSE << a[1] * P2(s) + (a[2] \div P2(31 - s)),
          (a[2] % P2(31 - s)) * P2(s) >>

\* floor(a / 2^s) for 0 <= s <= 30, any sign of a
WShr(a, s) ==
  IF s = 0 THEN a
  ELSE << a[1] \div P2(s),
          (a[1] % P2(s)) * P2(31 - s) + (a[2] \div P2(s)) >>

\* floor(a / 2^s) for any 0 <= s <= 61
WShrL(a, s) == IF s <= 30 THEN WShr(a, s)
               ELSE WShr(<< IF a[1] < 0 THEN -1 ELSE 0,
                            IF a[1] < 0 THEN (M31 + a[1]) + 1 ELSE a[1] >>, s - 31)

\* a * c with 0 <= a < 2^31 and 0 <= c < 2^11
WMulSmall(a, c) ==
  LET t == (a \div 65536) * c
  IN  WAdd(<< t \div 32768, (t % 32768) * 65536 >>, << 0, (a % 65536) * c >>)

\* exact product of 0 <= a, b < 2^31
WMulNN(a, b) ==
  IF a = 0 \/ b = 0 THEN WZero
  ELSE IF b < 2048 THEN WMulSmall(a, b)
  ELSE LET h1 == IF b < 4194304 THEN WZero ELSE WShl(WMulSmall(a, b \div 4194304), 11)
           h2 == WShl(WAdd(h1, WMulSmall(a, (b \div 2048) % 2048)), 11)
       IN  WAdd(h2, WMulSmall(a, b % 2048))

\* exact product of two TLC integers of any sign (other than -2^31)
WMul(a, b) ==
  LET p == WMulNN(Abs(a), Abs(b))
  IN  IF (a < 0) # (b < 0) THEN WNeg(p) ELSE p

\* 2^(s-1) as a WIDE, 1 <= s <= 61
WHalf(s) == IF s <= 31 THEN << 0, P2(s - 1) >> ELSE << P2(s - 32), 0 >>

\* round(a / 2^s), ties away from zero, s >= 1: sign-magnitude rounding
WRound(a, s) ==
  IF WIsNeg(a) THEN WNeg(WShrL(WAdd(WNeg(a), WHalf(s)), s))
  ELSE WShrL(WAdd(a, WHalf(s)), s)

\* round(x / 2^s), ties away from zero, for a TLC integer x (|x| + 2^(s-1) < 2^31)
RoundI(x, s) ==
  IF x < 0 THEN -(((-x) + P2(s - 1)) \div P2(s))
  ELSE (x + P2(s - 1)) \div P2(s)

\* round(a * b / 2^31) for 0 <= a, b < 2^31, faster: both in halves of 16 bits
MulR31NN(a, b) ==
  LET a1 == a \div 65536
      a0 == a % 65536
      b1 == b \div 65536
      b0 == b % 65536
      c1 == a1 * b0
      c2 == a0 * b1
      ll == (b0 * (a0 \div 256) + (b0 * (a0 % 256)) \div 256) \div 256
  IN  2 * a1 * b1 + c1 \div 32768 + c2 \div 32768
      + ((c1 % 32768) + (c2 % 32768) + ll + 16384) \div 32768
MulR31(a, b) == IF a < 0 THEN -MulR31NN(-a, b) ELSE MulR31NN(a, b)      \* b >= 0

\* floor(a * b / 2^s)  and  round(a * b / 2^s) as TLC integers
MulShr(a, b, s) == WInt(WShrL(WMul(a, b), s))
MulRound(a, b, s) == WInt(WRound(WMul(a, b), s))
=============================================================================
