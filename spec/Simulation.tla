----------------------------- MODULE Simulation -----------------------------
(***************************************************************************)
(* What the repository's simulation and benchmark programs work out.        *)
(*                                                                         *)
(* entropy_simulations: 10,000 bits whose zeros are as evenly spaced as a   *)
(* probability asks for, coded with one adaptive estimator that starts      *)
(* afresh at every multiple of a run length.                                *)
(*                                                                         *)
(* bench_sigmoid: sums of squash and of stretch over 1000 pseudorandom      *)
(* samples.                                                                 *)
(***************************************************************************)
EXTENDS Cost, Sigmoid, MersenneTwister

(* 1 / (1 + e^(k/2)) for k in 0..18, in 1/2^60 (SimulationMC works them out)   *)
One60 == << 536870912, 0 >>
ProbTab ==
  << << 268435456, 0 >>, << 202690603, 375273376 >>,
     << 144386826, 355377555 >>, << 97938957, 725841398 >>,
     << 63996581, 985864938 >>, << 40726050, 624198774 >>,
     << 25461571, 1686282791 >>, << 15736884, 120763983 >>,
     << 9656272, 2031029003 >>, << 5898569, 1954592886 >>,
     << 3593196, 2103676814 >>, << 2185138, 1175744614 >>,
     << 1327479, 964509703 >>, << 805941, 187373546 >>,
     << 489116, 1901847089 >>, << 296770, 1655579518 >>,
     << 180039, 1568485242 >>, << 109214, 58484360 >>,
     << 66246, 2058460962 >> >>
Probability(k) == IF k >= 0 THEN ProbTab[k + 1] ELSE WSub(One60, ProbTab[1 - k])

-----------------------------------------------------------------------------
(* The simulation                                                           *)
Bits == 10000
RunLengths == << 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 100, 200, 300, 1000, 2000, 10000 >>
RateKinds == << << 1, 2 >>, << 1, 3 >>, << 2, 2 >>, << 2, 3 >> >>
\* rows of the table: half power, length, kind of rates
RowCount == 37 * 64
RowAt(n) == LET m == n - 1
                r == RateKinds[(m % 4) + 1]
            IN  << 18 - m \div 64, RunLengths[((m % 64) \div 4) + 1], r[1], r[2] >>

\* floor(2^31 / (factor * n + addend))
RateOf(kind, n) ==
  LET d == kind[1] * n + kind[2]
  IN  (M31 \div d) + (IF M31 % d = d - 1 THEN 1 ELSE 0)
RateTabs == TLCEval([k \in 1..4 |-> TLCEval([n \in 0..MaxUse |-> RateOf(RateKinds[k], n)])])
KindIndex(kind) == 2 * (kind[1] - 1) + kind[2] - 1
Moved(p, f, bit) ==
  LET q == p * 512
      err == IF bit = 0 THEN WMul((M31 - q) + 1, f) ELSE WMul(-q, f)
      x == WAdd(<< q - 1073741824, 0 >>, err)
  IN  Max2(1, Min2(EstOne - 1, WInt(WRound(x, 40)) + 2097152))

\* zeros come when the sum of the probabilities passes a whole number
SimInit(k) == [sum |-> Probability(k), e |-> EstNew, cost |-> 0, zeros |-> 0]
SimStep(s, k, kind, length, i) ==
  LET sum == WAdd(s.sum, Probability(k))
      bit == IF WLess(sum, One60) THEN 1 ELSE 0
      e == IF i % length = 0 THEN EstNew ELSE s.e
  IN  [sum |-> IF bit = 0 THEN WSub(sum, One60) ELSE sum,
       e |-> [p |-> Moved(e.p, RateTabs[kind][e.n], bit), n |-> Min2(e.n + 1, MaxUse)],
       cost |-> s.cost + CostOf(Coded(512 * e.p), bit),
       zeros |-> s.zeros + (1 - bit)]
SimMany(s, k, kind, length, from, count) ==
  FoldLeft(LAMBDA x, i : SimStep(x, k, kind, length, i), s, [n \in 1..count |-> from + n - 1])

\* zeros among all the bits: the whole numbers that 10,001 probabilities pass
ZerosOf(k) ==
  LET p == Probability(k)
      add(x, y) == LET f == WAdd(x.f, y.f)
                   IN  IF WLess(f, One60) THEN [w |-> x.w + y.w, f |-> f]
                       ELSE [w |-> x.w + y.w + 1, f |-> WSub(f, One60)]
      \* binary digits of 10,001, highest first
      r == FoldLeft(LAMBDA x, d : LET two == add(x, x) IN IF d = 1 THEN add(two, [w |-> 0, f |-> p]) ELSE two,
                    [w |-> 0, f |-> WZero], << 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 0, 0, 0, 1 >>)
  IN  r.w

-----------------------------------------------------------------------------
(* Logarithm of a natural number below 2^20, with 30 fractional bits         *)
Log30(n) ==
  LET len == BitLenI(n)
  IN  WAdd(<< 0, LogDigits(n * P2(31 - len), 30, 0) >>, WShl(WOf(len - 1), 30))
\* cost of z zeros and o ones at their own share, in 1/2^30 bits
IdealCost(z, o) ==
  LET part(n) == IF n = 0 THEN WZero
                 ELSE LET l == WSub(Log30(z + o), Log30(n))
                      IN  WAdd(WMul(l[2], n), WShl(WShl(WMul(l[1], n), 30), 1))
  IN  WAdd(part(z), part(o))

-----------------------------------------------------------------------------
(* The samples of the benchmark: the lower halves of the generator's words,  *)
(* as signed numbers with 27 fractional bits, those outside -12 .. 12        *)
(* skipped, in 1/2^21                                                        *)
DefaultSeed == WSmall(5489)
Signed(w) == IF w[4] < 128 THEN ((w[4] * 256 + w[3]) * 256 + w[2]) * 256 + w[1]
             ELSE (((w[4] - 256) * 256 + w[3]) * 256 + w[2]) * 256 + w[1]
SampleLimit == 1610612736
Sampled(w) == LET x == Signed(w) IN x >= -SampleLimit /\ x <= SampleLimit
SampleOf(w) == Signed(w) \div 64
=============================================================================
