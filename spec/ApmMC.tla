-------------------------------- MODULE ApmMC -------------------------------
(***************************************************************************)
(* Behaviours of small maps (1 stop per unit, two contexts), and scales and  *)
(* freshness for every interval and precision.                              *)
(***************************************************************************)
EXTENDS Apm, Sigmoid, TLC
CONSTANTS Depth

StopsOf(b) == FoldLeft(LAMBDA acc, j : Append(acc, Squash(StopSt(b, j))), << >>, [j \in 1..StopsCount(b) |-> j])
AllStops == << StopsOf(0), StopsOf(1), StopsOf(2) >>
AllScales == << ScalesOf(AllStops[1]), ScalesOf(AllStops[2]), ScalesOf(AllStops[3]) >>

(* inputs around stops and inside intervals *)
At(j) == LET s == AllStops[1] IN { s[j], s[j] + 1, (s[j] \div 2) + (s[j + 1] \div 2), s[j + 1] - 1 }
Inputs == At(1) \union At(12) \union At(24)
HalfWay == 178916315                 \* a weight of exactly one half
VARIABLES phase, vB, vJ, vMap, vLook, vLast, vN
vars == << phase, vB, vJ, vMap, vLook, vLast, vN >>

(* every interval of every precision: one state each *)
InitScan == /\ phase = "scan" /\ vB \in 0..MaxPrecision /\ vJ \in 1..(24 * P2(vB))
            /\ vMap = << >> /\ vLook = << >> /\ vLast = << >> /\ vN = 0
InitRun == /\ phase = "run" /\ vB = 0 /\ vJ = 0 /\ vN = 0 /\ vLook = << >> /\ vLast = << >>
           /\ \/ vMap = << NewMap(AllStops[1]), NewMap(AllStops[1]) >>
              \/ vMap = << [k \in 1..25 |-> M31], [k \in 1..25 |-> M31] >>      \* saturated
              \/ vMap = << [k \in 1..25 |-> 1], [k \in 1..25 |-> 1] >>
Init == InitScan \/ InitRun
RefineOne == /\ phase = "run" /\ vLook = << >> /\ vN < Depth
             /\ \E c \in 1..2, sq \in Inputs \union { HalfWay } :
                  /\ vLook' = [c |-> c, sq |-> sq, l |-> Look(0, AllStops[1], AllScales[1], sq, Stretch(sq))]
             /\ UNCHANGED << phase, vB, vJ, vMap, vLast, vN >>
Learn == /\ vLook # << >>
         /\ \E bit \in {0, 1}, rate \in { 1, 5, 29 }, fixed \in BOOLEAN :
              /\ vMap' = [vMap EXCEPT ![vLook.c] = Update(@, vLook.l, bit, rate, fixed)]
              /\ vLast' = [c |-> vLook.c, j |-> vLook.l.j, bit |-> bit, before |-> vMap]
         /\ vLook' = << >> /\ vN' = vN + 1 /\ UNCHANGED << phase, vB, vJ >>
Next == RefineOne \/ Learn
Spec == Init /\ [][Next]_vars

(* Scales: the weight of the far end stays below 1, and is almost 1 *)
ScaleOk == phase = "scan" =>
  LET s == AllStops[vB + 1]
      len == s[vJ + 1] - s[vJ]
      sc == AllScales[vB + 1][vJ]
  IN  /\ len > 0
      /\ sc = ScaleOf(len)
      /\ WeightRight(len, sc) <= M31 /\ WeightRight(len, sc) >= M31 - 4
      /\ WeightRight(0, sc) = 0
(* A fresh map returns its input *)
FreshOk == phase = "scan" =>
  LET s == AllStops[vB + 1]
      len == s[vJ + 1] - s[vJ]
  IN  \A sq \in { s[vJ], s[vJ] + 1, s[vJ] + len \div 3, s[vJ] + len \div 2, s[vJ + 1] - 1, s[vJ + 1] } :
        /\ Consistent(vB, s, sq, Stretch(sq))
        /\ Abs(Refine(NewMap(s), Look(vB, s, AllScales[vB + 1], sq, Stretch(sq))) - sq) <= 2
(* Refined values stay inside the two values they are between, and in (0, 1) *)
RefineOk == vLook # << >> =>
  LET m == vMap[vLook.c]
      r == Refine(m, vLook.l)
  IN  /\ r > 0 /\ r <= M31
      /\ Consistent(0, AllStops[1], vLook.sq, Stretch(vLook.sq))
      /\ r >= Min2(m[vLook.l.j], m[vLook.l.j + 1]) - 1
      /\ r <= Max2(m[vLook.l.j], m[vLook.l.j + 1]) \/ r - 1 <= Max2(m[vLook.l.j], m[vLook.l.j + 1])
(* Updates move only the two stops, towards the bit, never to certainty *)
UpdateOk == vLast # << >> =>
  \A c \in 1..2 : \A k \in 1..25 :
    LET x == vLast.before[c][k]
        y == vMap[c][k]
    IN  /\ y > 0 /\ y <= M31
        /\ (c # vLast.c \/ k \notin { vLast.j, vLast.j + 1 }) => y = x
        /\ IF vLast.bit = 0 THEN y >= x ELSE y <= x
=============================================================================
