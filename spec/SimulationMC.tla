---------------------------- MODULE SimulationMC ----------------------------
(***************************************************************************)
(* Simulation's table of probabilities against the exponential series, and   *)
(* its shortcuts against the plain simulation, for every probability.        *)
(***************************************************************************)
EXTENDS Simulation, TLC

CONSTANT Chunks                        \* of a hundred steps each

(* e^(1/2) = sum of 1 / (2^n n!), with 90 fractional bits                   *)
Prec == 90
HalfE == TLCEval(FoldLeft(LAMBDA a, n : LET t == TLCEval(BDiv(a.t, BOf(2 * n)))
                                        IN  [t |-> t, s |-> TLCEval(BAdd(a.s, t))],
                          [t |-> B2(Prec), s |-> B2(Prec)], [n \in 1..25 |-> n]).s)
RECURSIVE HalfPower(_, _)
HalfPower(h, k) == IF k = 0 THEN B2(Prec) ELSE TLCEval(BShr(BMul(HalfPower(h, k - 1), h), Prec))
WideOf(b) == << BInt(BShr(b, 31)), BInt(BMod2(b, 31)) >>
Logistic(k) == WideOf(BDiv(BShl(B2(60), Prec), BAdd(B2(Prec), HalfPower(HalfE, k))))

VARIABLES half, chunk, simst, simple
vars == << half, chunk, simst, simple >>
\* a plain estimator next to the simulated one, in one run of all the bits
Init == /\ half \in -18..18 /\ chunk = 0
        /\ simst = SimInit(half)
        /\ simple = EstNew
Next == /\ chunk < Chunks /\ chunk' = chunk + 1 /\ half' = half
        /\ LET r == FoldLeft(LAMBDA x, i : LET y == SimStep(x.s, half, 1, 10000, i)
                                          IN  [s |-> y, e |-> EstUpd(x.e, IF y.zeros > x.s.zeros THEN 0 ELSE 1)],
                            [s |-> simst, e |-> simple], [n \in 1..100 |-> (100 * chunk + n) - 1])
           IN  simst' = r.s /\ simple' = r.e
Spec == Init /\ [][Next]_vars

Table == (chunk = 0 /\ half >= 0) => ProbTab[half + 1] = Logistic(half)
\* the rates of the plain estimator are of the first kind
SameEstimator == simst.e = simple
\* never further than one from the share of zeros
Evenly == LET n == 100 * chunk
              share == WMulNN(n + 1, Probability(half)[1])                \* in 1/2^29
          IN  Abs(simst.zeros - WInt(WShr(share, 29))) <= 1
AllZeros == chunk = 100 => simst.zeros = ZerosOf(half)
ASSUME /\ IdealCost(5000, 5000) = WShl(WOf(10000), 30)
       /\ IdealCost(0, 10000) = WZero
       /\ \A z \in {1, 100, 2500} : IdealCost(z, 10000 - z) = IdealCost(10000 - z, z)
ASSUME /\ RowAt(1) = << 18, 1, 1, 2 >>
        /\ RowAt(RowCount) = << -18, 10000, 2, 3 >>
        /\ \A n \in 2..RowCount : RowAt(n) # RowAt(n - 1)
=============================================================================
