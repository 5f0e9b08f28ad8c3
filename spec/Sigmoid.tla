------------------------------ MODULE Sigmoid -------------------------------
(***************************************************************************)
(* The logistic domain: stretch(p) = ln(p / (1-p)) and its inverse squash.  *)
(* Probabilities have 31 fractional bits and are strictly between 0 and 1;  *)
(* stretched ones have 21 and are kept within -12 .. 12.                    *)
(***************************************************************************)
EXTENDS Logs, SigmoidTab

Half == 1073741824                     \* 1/2
Neg(q) == (M31 - q) + 1                \* 1 - q
StLimit == 25165824                    \* 12

\* round(a * w / 2^31) of a value and a weight 0 <= w < 1
Part(a, w) == MulR31(a, w)
\* the point at w between two values, each product rounded
Between(l, r, w) == IF w = 0 THEN l ELSE (l - Part(l, w)) + Part(r, w)

-----------------------------------------------------------------------------
(* Logarithms with 25 fractional bits, of 0 < q < 1                         *)
Log25(q) ==
  LET up == 31 - BitLenI(q)
      d == LogDigits(q * P2(up), 31, 0)
  IN  ((d \div 64) + ((d % 64) + 32) \div 64) - (up + 1) * 33554432

\* round(ln(q / (1-q))), the logarithms taken with 25 bits
Ln2 == 1488522236
Logit(q) == MulRound(Log25(q) - Log25(Neg(q)), Ln2, 35)

-----------------------------------------------------------------------------
(* The lower half of the domain is split into levels, one per power of two, *)
(* the last one reaching down to 0; every level into 512 equal steps.        *)
(* Values are exact at the steps, and interpolated between them; below the   *)
(* first step they stay constant.                                           *)
LastLevel == 7
LevelBits(l) == IF l = LastLevel THEN 14 ELSE 20 - l            \* size of a step
LevelStart(l) == IF l = LastLevel THEN 0 ELSE P2(29 - l)
LevelOf(q) == Min2(LastLevel, 30 - BitLenI(q))
StepOf(l, i) ==       \* StretchTab[l + 1][i + 1], 0 <= i < 512
  Logit(LevelStart(l) + (IF l = LastLevel /\ i = 0 THEN 1 ELSE i) * P2(LevelBits(l)))
StepAt(l, i) == IF i < 512 THEN StretchTab[l + 1][i + 1]
                ELSE IF l > 0 THEN StretchTab[l][1] ELSE 0
StretchLow(q) ==
  LET l == LevelOf(q)
      b == LevelBits(l)
      x == q - LevelStart(l)
      i == x \div P2(b)
  IN  Between(StepAt(l, i), StepAt(l, i + 1), (x % P2(b)) * P2(31 - b))
Stretch(q) == IF q = Half THEN 0
              ELSE IF q < Half THEN StretchLow(q) ELSE -StretchLow(Neg(q))

-----------------------------------------------------------------------------
(* Squash inverts stretch at 128 points per unit and interpolates between   *)
(* them.  A point is found by bisection.                                     *)
MinMapped == 16384                     \* below it stretch is constant
RECURSIVE Bisect(_, _, _)
Bisect(st, low, high) ==
  IF high - low > 1
  THEN LET mid == low + (high - low) \div 2
           s == Stretch(mid)
       IN  IF s > st THEN Bisect(st, low, mid)
           ELSE IF s < st THEN Bisect(st, mid, high) ELSE mid
  ELSE LET a == Stretch(low)
           b == Stretch(high)
       IN  IF a # b THEN (IF st - a < b - st THEN low ELSE high)
           ELSE Min2(Max2(low, MinMapped), Neg(MinMapped))
PointOf(i) == Bisect(i * 16384, 1, M31)          \* UpperPoints[i + 1], 0 <= i <= 1536
PointAt(i) == IF i >= 0 THEN UpperPoints[i + 1] ELSE Neg(UpperPoints[1 - i])
Squash(st) == LET i == st \div 16384
              IN  IF st = StLimit THEN PointAt(1536)
                  ELSE Between(PointAt(i), PointAt(i + 1), (st % 16384) * 131072)

-----------------------------------------------------------------------------
(* How close the functions are to the exact ones.  Interpolating a logarithm *)
(* between x and x + h is off by at most (h/x)^2 / 8; a step is at most       *)
(* 1/512 of x, but for the last level, where it is 1/i.  The curve of squash  *)
(* bends by at most min(p, 1-p).  The rest is rounding.                       *)
Lower(q) == IF q <= Half THEN q ELSE Neg(q)
Mapped(q) == Min2(Max2(q, MinMapped), Neg(MinMapped))
LastStep(q) == Lower(q) \div 16384
StretchError(q) ==
  3 + (IF LevelOf(Lower(q)) < LastLevel THEN 0
       ELSE LET i == Max2(1, LastStep(q)) IN 262144 \div (i * (i + 1)))
SquashError(q) ==
  LET p == Lower(Mapped(q))
  IN  3 + (p \div 65536) + (IF LevelOf(p) < LastLevel THEN 0
                           ELSE LET i == Max2(1, LastStep(q)) IN (p \div 8) \div (i * (i + 1)) + 1)
GoodStretch(q, s) ==
  /\ Abs(s) <= StLimit
  /\ Abs(s - Logit(Mapped(q))) <= StretchError(q)
\* q is squash(s): the exact stretch of its neighbourhood contains s
GoodSquash(s, q) ==
  LET e == SquashError(q)
      edge == -Logit(MinMapped)
      x == Min2(Max2(s, -edge), edge)
  IN  /\ q > 0
      /\ Logit(Max2(q - e, 1)) - 2 <= x
      /\ (q <= M31 - e => x <= Logit(q + e) + 2)
\* there and back
GoodTrip(q, r) == Abs(r - Mapped(q)) <= 2 * SquashError(q)
\* for neighbouring arguments
Rising(a, b) == b >= a - 1
=============================================================================
