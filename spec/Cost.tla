-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* Binary logarithms, the cost of coding a bit, and running costs.          *)
(***************************************************************************)
EXTENDS Stats, Logs, Big

\* logarithm of a positive number with f fractional bits
LogOf(x, f) ==
  LET len == BBits(x)
      top == IF len > LogBits + 1 THEN BShr(x, len - LogBits - 1) ELSE BShl(x, LogBits + 1 - len)
  IN  LogTab[(BInt(top) - LogOne) + 1] + (len - 1 - f) * LogOne

(* Probability of a zero bit as it is coded, in 1/2^23                      *)
FinalOne == 8388608
Coded(q) == Max2(1, Min2(FinalOne - 1, (q \div 256) + ((q % 256) + 128) \div 256))     \* q in 1/2^31
LogSmall(n) ==      \* logarithm of n / 2^23, as above
  LET len == BitLenI(n)
      top == IF len > 12 THEN n \div P2(len - 12) ELSE n * P2(12 - len)
  IN  LogTab[(top - LogOne) + 1] + (len - 24) * LogOne
CostOf(p, bit) == -LogSmall(IF bit = 0 THEN p ELSE FinalOne - p)

(* Running cost: loses a sixteenth, gains the new cost, up to 2^16 - 1       *)
CostMax == 65535
CostStart == 32768
CanTrack(cost) == cost > 0 /\ cost <= CostMax
Track(x, cost) == Min2(CostMax, (x - Min2(CostMax, x + 8) \div 16) + cost)
TrackBit(x, q, bit) == Track(x, CostOf(Coded(q), bit))

(* Running cost of an estimator that sees n equal bits and then the other    *)
CostRuns ==
  FoldLeft(LAMBDA acc, n :
             LET q == 512 * EstAfterRun(0, n).p
             IN  [x |-> TrackBit(acc.x, q, 0), out |-> Append(acc.out, TrackBit(acc.x, q, 1))],
           [x |-> CostStart, out |-> << >>], [n \in 1..(MaxUse + 1) |-> n - 1]).out
CostAfterRun(n) == CostRuns[n + 1]         \* n <= MaxUse
=============================================================================
