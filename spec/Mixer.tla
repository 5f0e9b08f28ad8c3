------------------------------- MODULE Mixer --------------------------------
(***************************************************************************)
(* A mixer: weights (21 fractional bits, within -8 .. 8), one stretched      *)
(* input (21 bits, within -12 .. 12) and probability per weight once set,   *)
(* and the index of its learning rate.  Every cycle sets all inputs once,   *)
(* mixes, and learns from the bit that came.                                *)
(***************************************************************************)
EXTENDS Stats, TLC

WOne == 2097152
WBound == 16777216
StBound == 25165824
MaxSize == 30
Sizes == [Mixer1 |-> 1, Mixer2 |-> 2, Mixer3 |-> 3, Mixer4 |-> 4, Mixer5 |-> 5]
ProbOne == << 1, 0 >>                            \* 2^31

(* Creation.  The fixed kinds truncate the equal weights, the other rounds.  *)
CanMake(kind, size, mode, idx) ==
  /\ idx <= MaxUse
  /\ kind = "MixerN" => size <= MaxSize /\ (mode # "zero" => size > 0)
StartWeight(kind, size, mode, i) ==
  CASE mode = "zero" -> 0
    [] mode = "first" -> IF i = 1 THEN WOne ELSE 0
    [] mode = "equal" -> IF kind = "MixerN" THEN (WOne + size \div 2) \div size ELSE WOne \div size
Make(kind, size, mode, idx) ==
  [w |-> TLCEval([i \in 1..size |-> StartWeight(kind, size, mode, i)]),
   in |-> [i \in 1..size |-> << >>], idx |-> idx]

(* Setting input i (counted from 0), once *)
CanSet(m, i) == i < Len(m.w) /\ m.in[i + 1] = << >>
SetInput(m, i, sq, st) == [m EXCEPT !.in[i + 1] = << sq, st >>]
CanGet(m, i) == i < Len(m.w) /\ m.in[i + 1] # << >>

(* Mixing: each product is rounded to 40 bits, the clamped sum to 21 *)
Ready(m) == \A i \in 1..Len(m.w) : m.in[i] # << >>
Sum(m) == FoldLeft(LAMBDA acc, i : WAdd(acc, WRound(WMul(m.w[i], m.in[i][2]), 2)),
                   WZero, [i \in 1..Len(m.w) |-> i])
WLimit == << 6144, 0 >>                          \* 12 with 40 bits
Clamp40(x) == WMax(WNeg(WLimit), WMin(WLimit, x))
MixSt(m) == WInt(WRound(Clamp40(Sum(m)), 19))

(* Learning: every weight moves by input * error * rate.  The error is the  *)
(* distance from the predicted probability p of a zero to what came; the    *)
(* rate halves that of an estimator used as often.                          *)
Err(p, bit) == IF bit = 0 THEN (M31 - p) + 1 ELSE p
CanLearn(m, bit, p, max) ==
  Ready(m) /\ ~(bit = 0 /\ p = 0) /\ m.idx <= max /\ max <= MaxUse
RateOf(idx) == (Rate(idx) + 1) \div 2
Step(p, bit, idx) == LET s == MulR31(RateOf(idx), Err(p, bit)) IN IF bit = 0 THEN s ELSE -s
\* round(st * step / 2^31): step may have either sign
Change(st, step) == IF step < 0 THEN -MulR31(st, -step) ELSE MulR31(st, step)
ClampW(x) == Max2(-WBound, Min2(WBound, x))
Learn(m, bit, p, max) ==
  LET s == Step(p, bit, m.idx)
  IN  [w |-> TLCEval([i \in 1..Len(m.w) |-> ClampW(m.w[i] + Change(m.in[i][2], s))]),
       in |-> [i \in 1..Len(m.w) |-> << >>],
       idx |-> Min2(max, m.idx + 1)]
=============================================================================
