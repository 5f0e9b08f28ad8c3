---------------------------- MODULE SigmoidTrace -----------------------------
(* Recorded values of stretch and squash: at an argument, at the next one    *)
(* and at the mirrored one; and there and back.                              *)
EXTENDS Sigmoid, TraceBase

VARIABLES tr, at
vars == << tr, at >>
T == Trace[tr]
Steps(t) == Len(t.r)
Init == tr \in 1..Len(Trace) /\ at = 0
Next == at < Steps(T) /\ at' = at + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

R == T.r[at]
IsStretch == at > 0 /\ T.kind = "stretch"
IsSquash == at > 0 /\ T.kind = "squash"
Accurate == /\ IsStretch => GoodStretch(R[1], R[2])
            /\ IsSquash => GoodSquash(R[1], R[2]) /\ R[2] > 0
Symmetric == /\ IsStretch => R[4] = -R[2] /\ (R[1] = Half => R[2] = 0)
             /\ IsSquash => R[4] = Neg(R[2]) /\ (R[1] = 0 => R[2] = Half)
Monotone == at > 0 => Rising(R[2], R[3])
ThereAndBack == IsStretch => GoodTrip(R[1], R[5])
=============================================================================
