--------------------------------- MODULE Apm --------------------------------
(***************************************************************************)
(* An adaptive probability map: for every context, values at equally spaced *)
(* stops of the stretched domain -12 .. 12, 2^b stops per unit.  An input   *)
(* probability is refined by interpolating between the two stops around it; *)
(* an update moves these two towards the bit that came.                     *)
(* Values and weights have 31 fractional bits; a weight may be exactly 1.   *)
(***************************************************************************)
EXTENDS Wide, SequencesExt

MaxPrecision == 2
StopsCount(b) == 24 * P2(b) + 1
StopSt(b, j) == (j - 1 - 12 * P2(b)) * P2(21 - b)        \* j from 1

Half31 == 1073741824
Flip31(q) == (M31 - q) + 1                     \* 1 - q, for 0 < q < 1
\* a weight is a number of 2^-31, or One for exactly 1
One == -1
Flip(w) == IF w = One THEN 0 ELSE IF w = 0 THEN One ELSE Flip31(w)
Times(w, x) == IF w = One THEN x ELSE MulR31(x, w)       \* round(w * x)

(* The weight of the right stop is (input - left) / (right - left).  The     *)
(* division is by multiplication: the difference is shifted up so that the   *)
(* length of the interval is in [1/2, 1), and multiplied by 1 + x, x being    *)
(* the largest that keeps the weight of the end of the interval below 1.     *)
RECURSIVE ShiftFor(_)
ShiftFor(len) == IF len >= Half31 THEN 0 ELSE 1 + ShiftFor(2 * len)
RECURSIVE LargestBelow(_, _, _, _)
LargestBelow(len, rest, low, high) ==          \* max x : round(x * len) < rest
  IF high - low <= 1 THEN low
  ELSE LET mid == low + (high - low) \div 2
       IN  IF MulR31(mid, len) < rest THEN LargestBelow(len, rest, mid, high)
           ELSE LargestBelow(len, rest, low, mid)
ScaleOf(len) ==
  LET s == ShiftFor(len)
      l == len * P2(s)
  IN  [shift |-> s, extra |-> LargestBelow(l, Flip31(l), 0, M31)]
\* the scales of all intervals between increasing values
ScalesOf(stops) == FoldLeft(LAMBDA acc, j : Append(acc, ScaleOf(stops[j + 1] - stops[j])), << >>,
                            [j \in 1..(Len(stops) - 1) |-> j])
WeightRight(d, scale) == LET x == d * P2(scale.shift) IN x + MulR31(x, scale.extra)

-----------------------------------------------------------------------------
(* squashed: the probabilities at the stops; a fresh map has them as values  *)
NewMap(squashed) == squashed

\* the interval of an input: that of the stretched value, unless the
\* probability is below it
Interval(b, squashed, sq, st) ==
  LET lim == 12 * 2097152
      x == Max2(1 - lim, Min2(lim - 1, st))
      j == x \div P2(21 - b) + 12 * P2(b) + 1
  IN  IF sq < squashed[j] THEN j - 1 ELSE j
Inside(squashed, sq) == Max2(squashed[1], Min2(squashed[Len(squashed)], sq))

\* what an input selects: the left stop and its weight
Look(b, squashed, scales, sq0, st) ==
  LET sq == Inside(squashed, sq0)
      j == Interval(b, squashed, sq, st)
  IN  [j |-> j, w |-> Flip(WeightRight(sq - squashed[j], scales[j]))]
\* is it around the input
Consistent(b, squashed, sq0, st) ==
  LET sq == Inside(squashed, sq0)
      j == Interval(b, squashed, sq, st)
  IN  j >= 1 /\ squashed[j] <= sq /\ sq <= squashed[j + 1]

Refine(map, look) ==
  LET a == Times(look.w, map[look.j])
      b == Times(Flip(look.w), map[look.j + 1])
  IN  IF a > M31 - b THEN M31 ELSE a + b

Moved(x, w, bit, rate) ==
  IF bit = 0 THEN x + Times(w, Flip31(x) \div P2(rate)) ELSE x - Times(w, x \div P2(rate))
Update(map, look, bit, rate, fixed) ==
  LET w == IF fixed THEN Half31 ELSE look.w
  IN  [map EXCEPT ![look.j] = Moved(@, w, bit, rate),
                  ![look.j + 1] = Moved(@, Flip(w), bit, rate)]
CanRate(rate) == rate > 0 /\ rate < 30
=============================================================================
