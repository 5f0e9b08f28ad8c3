------------------------------- MODULE CostMC -------------------------------
(* The logarithm is one: it adds up over products, grows, and costs are      *)
(* positive and finite; running costs stay between their bounds.             *)
EXTENDS Cost
CONSTANT Depth

ASSUME \A a \in {1073741824 + 53687 * n : n \in 0..2000} \cup {M31, M31 - 1} :
         SquareRound(a) = WAdd(WMulNN(a, a), << 0, 1073741824 >>)[1]
ASSUME LogTab[1] = 0 /\ LogTab[LogOne] <= LogOne /\ LogTab[LogOne] > LogOne - 3
ASSUME \A k \in 1..(LogOne - 1) : LogTab[k] <= LogTab[k + 1] /\ LogTab[k + 1] - LogTab[k] <= 2
\* log(a) + log(b) = log(ab), within the rounding of three entries and of ab
ASSUME \A a \in {2048 + 97 * n : n \in 0..20}, b \in {2048 + 61 * n : n \in 0..32} :
         Abs(LogSmall(a) + LogSmall(b) + 23 * LogOne - LogSmall(a * b)) <= 3
ASSUME \A n \in 0..22 : LogSmall(P2(n)) = (n - 23) * LogOne
ASSUME CostOf(4194304, 0) = LogOne /\ CostOf(4194304, 1) = LogOne
ASSUME \A p \in {1, 2, 3, 4095, 4096, 4097, 4194303, 8386559, 8386560, 8388606, 8388607} :
         /\ CostOf(p, 0) = CostOf(FinalOne - p, 1)
         /\ CanTrack(CostOf(p, 0))

VARIABLES x, d
Costs == {1, 2, 17, 2048, 30000, 47104}
Init == x \in {0, 1, 7, 8, 9, CostStart, CostMax - 1, CostMax} /\ d = 0
Next == d < Depth /\ \E c \in Costs : x' = Track(x, c) /\ d' = d + 1
Spec == Init /\ [][Next]_<< x, d >>
Bounded == x \in 0..CostMax
\* with a constant cost c the running cost settles near 16 c
Settles == \A c \in Costs : 16 * c <= CostMax =>
             /\ x > 16 * c + 8 => Track(x, c) < x
             /\ x < 16 * c - 8 => Track(x, c) > x
=============================================================================
