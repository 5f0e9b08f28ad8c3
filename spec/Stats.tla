------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* What a context remembers about the bits that followed it:               *)
(*  - an adaptive probability of a zero bit (decelerating estimator),      *)
(*  - the most recent 15 bits,                                             *)
(*  - the lengths of the last three runs, capped at 1000.                  *)
(***************************************************************************)
EXTENDS Wide, SequencesExt

(* Decelerating estimator: p = probability of zero in 1/2^22, n = times     *)
(* used (at most 1000).  Each bit moves p by error/(n+2), rounded.          *)
MaxUse == 1000
EstOne == 4194304            \* 2^22
EstNew == [p |-> 2097152, n |-> 0]

\* floor(2^31 / (n + 2))
Rate(n) == IF n = 0 THEN 1073741824
           ELSE (M31 \div (n + 2)) + (IF M31 % (n + 2) = n + 1 THEN 1 ELSE 0)

\* new value of a probability q (in 1/2^31), in 1/2^22
EstMove(p, n, bit) ==
  LET q == p * 512
      f == Rate(n)
      \* (target - q) * f, exactly; the target is 2^31 for a zero, 0 for a one
      err == IF bit = 0 THEN WMul((M31 - q) + 1, f) ELSE WMul(-q, f)
      \* relative to one half so that rounding is symmetric
      x == WAdd(<< q - 1073741824, 0 >>, err)
      \* certainty is never reached
  IN  Max2(1, Min2(EstOne - 1, WInt(WRound(x, 40)) + 2097152))

EstUpd(e, bit) == [p |-> EstMove(e.p, e.n, bit), n |-> Min2(e.n + 1, MaxUse)]

\* estimators after n equal bits from scratch, as sequences (index n + 1)
RunTab(bit) ==
  FoldLeft(LAMBDA acc, n : Append(acc, EstUpd(acc[Len(acc)], bit)), << EstNew >>,
           [i \in 1..MaxUse |-> i])
Runs0 == RunTab(0)
Runs1 == RunTab(1)
\* an edge is predicted as if one half had been seen once before
DirectTab ==
  FoldLeft(LAMBDA acc, n : Append(acc, EstUpd(acc[Len(acc)], 0)), << [p |-> 2097152, n |-> 1] >>,
           [i \in 1..MaxUse |-> i])
EstAfterRun(bit, n) == IF bit = 0 THEN Runs0[n + 1] ELSE Runs1[n + 1]

(* Recent bits, oldest first *)
RecentMax == 15
RecentUpd(r, bit) == Append(IF Len(r) = RecentMax THEN Tail(r) ELSE r, bit)
RecentRun(bit, n) == [i \in 1..Min2(n, RecentMax) |-> bit]

(* Runs: current bit, length of its run, of the run before, and before that *)
RunCap == 1000
RunsOf(bit, n) == [bit |-> bit, last |-> Min2(n, RunCap), opp |-> 0, prev |-> 0]
RunsUpd(r, bit) ==
  IF bit = r.bit THEN [r EXCEPT !.last = Min2(@ + 1, RunCap)]
  ELSE [bit |-> bit, last |-> 1, opp |-> r.last, prev |-> r.opp]

(* A context that has seen n times the same bit and then, for the first     *)
(* time, the other one.                                                     *)
FreshStats(bit, n) ==
  [est |-> EstUpd(EstAfterRun(1 - bit, n), bit),
   recent |-> RecentUpd(RecentRun(1 - bit, n), bit),
   runs |-> RunsUpd(RunsOf(1 - bit, n), bit)]

NextStats(s, bit) ==
  [est |-> EstUpd(s.est, bit),
   recent |-> RecentUpd(s.recent, bit),
   runs |-> RunsUpd(s.runs, bit)]
=============================================================================
