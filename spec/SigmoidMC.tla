----------------------------- MODULE SigmoidMC ------------------------------
(***************************************************************************)
(* The tables are what their definitions say; the functions built on them   *)
(* have the accuracy, symmetry and monotonicity they promise around every   *)
(* step, every point and at the ends of the domains.                        *)
(***************************************************************************)
EXTENDS Sigmoid, TLC

VARIABLES kind, l, i
vars == << kind, l, i >>
Near(q) == { q - 1, q, q + 1 }
Probs == IF kind = "step"
         THEN LET b == LevelBits(l)
                  x == LevelStart(l) + i * P2(b)
              IN  (Near(x) \union { x + P2(b) \div 2 }) \ { -1, 0 }
         ELSE { }
Sts == IF kind = "point" THEN LET x == i * 16384 IN { y \in Near(x) \union { x + 8192 } : y <= StLimit } ELSE { }

Init == \/ kind = "step" /\ l \in 0..LastLevel /\ i = 0
        \/ kind = "point" /\ l \in 0..11 /\ i = l * 128
Next == /\ kind' = kind /\ l' = l /\ i' = i + 1
        /\ \/ kind = "step" /\ i < 511
           \/ kind = "point" /\ i < l * 128 + IF l = 11 THEN 128 ELSE 127
Spec == Init /\ [][Next]_vars

Tables == IF kind = "step" THEN StretchTab[l + 1][i + 1] = StepOf(l, i)
          ELSE UpperPoints[i + 1] = PointOf(i)
StretchOk ==
  \A q \in Probs :
    LET s == Stretch(q)
    IN  /\ GoodStretch(q, s)
        /\ Stretch(Neg(q)) = -s
        /\ Rising(s, Stretch(q + 1))
        /\ Abs(s) <= StLimit
        /\ GoodTrip(q, Squash(s))
SquashOk ==
  \A s \in Sts :
    LET q == Squash(s)
    IN  /\ GoodSquash(s, q)
        /\ Squash(-s) = Neg(q)
        /\ GoodSquash(-s, Neg(q))
        /\ (s < StLimit => Rising(q, Squash(s + 1)))
        /\ q > 0 /\ q <= M31
Complete == TLCGet("stats").distinct = 8 * 512 + 12 * 128 + 1
=============================================================================
