-------------------------------- MODULE EstMC --------------------------------
(***************************************************************************)
(* The estimator at its real size, from many starting points, under every   *)
(* sequence of Depth bits, together with the estimator that starts from the *)
(* complement and sees the complemented bits.                               *)
(***************************************************************************)
EXTENDS Stats
CONSTANT Depth

VARIABLES e, mir, last, d
vars == << e, mir, last, d >>

Points == {1, 2, 3, 100, 2097151, 2097152, 2097153, 3000001, EstOne - 2, EstOne - 1}
Uses == {0, 1, 2, 5, 499, 998, 999, 1000}

Init == \E p \in Points, n \in Uses :
          /\ e = [p |-> p, n |-> n] /\ mir = [p |-> EstOne - p, n |-> n]
          /\ last = << >> /\ d = 0
Next == d < Depth /\ \E bit \in {0, 1} :
          /\ e' = EstUpd(e, bit) /\ mir' = EstUpd(mir, 1 - bit)
          /\ last' = << bit, e.p >> /\ d' = d + 1
Spec == Init /\ [][Next]_vars

NeverCertain == e.p > 0 /\ e.p < EstOne
Mirrored == mir = [p |-> EstOne - e.p, n |-> e.n]
\* a bit never becomes less likely by being seen
Learns == last # << >> => IF last[1] = 0 THEN e.p >= last[2] ELSE e.p <= last[2]
\* and moves by no more than the distance divided by two
Bounded == last # << >> =>
  IF last[1] = 0 THEN 2 * (e.p - last[2]) <= EstOne - last[2] + 2 ELSE 2 * (last[2] - e.p) <= last[2] + 2
=============================================================================
