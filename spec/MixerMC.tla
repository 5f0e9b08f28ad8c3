------------------------------ MODULE MixerMC -------------------------------
(***************************************************************************)
(* All behaviours of small mixers over extreme and ordinary inputs.         *)
(***************************************************************************)
EXTENDS Mixer, TLC
CONSTANTS Depth

Sts == { -StBound, -1, 700000, StBound }
Ps == { 1, 1000000000, M31 }
VARIABLES m, prev, last, steps, max
vars == << m, prev, last, steps, max >>

Init ==
  \E k \in { "Mixer1", "Mixer2", "MixerN" }, mode \in { "zero", "first", "equal" }, x \in { 2, MaxUse } :
    \E s \in (IF k = "MixerN" THEN { 1, 2 } ELSE { Sizes[k] }) :
      /\ CanMake(k, s, mode, x - 2)
      /\ m = Make(k, s, mode, x - 2) /\ max = x
      /\ prev = m /\ last = << >> /\ steps = 0
Set == \E i \in 0..1, st \in Sts :
         /\ CanSet(m, i)
         /\ \A j \in 0..(i - 1) : ~CanSet(m, j)     \* in order: setting commutes
         /\ m' = SetInput(m, i, 5, st)
         /\ last' = << "set" >> /\ prev' = m /\ UNCHANGED << steps, max >>
LearnBit == \E bit \in {0, 1}, p \in Ps :
           /\ steps < Depth /\ CanLearn(m, bit, p, max)
           /\ m' = Learn(m, bit, p, max)
           /\ last' = << "learn", bit >> /\ prev' = m /\ steps' = steps + 1 /\ UNCHANGED max
Next == Set \/ LearnBit
Spec == Init /\ [][Next]_vars

Bounded == \A i \in 1..Len(m.w) : Abs(m.w[i]) <= WBound
RateBound == m.idx <= max
MixBounded == Ready(m) => Abs(MixSt(m)) <= StBound
(* Learning never moves the mix of the same inputs away from the bit *)
Improves ==
  (last # << >> /\ last[1] = "learn") =>
    LET again == [prev EXCEPT !.w = m.w]
    IN  IF last[2] = 0 THEN MixSt(again) >= MixSt(prev) ELSE MixSt(again) <= MixSt(prev)
(* A zero input leaves its weight, a set input is used up *)
Fresh == (last # << >> /\ last[1] = "learn") => \A i \in 1..Len(m.w) : m.in[i] = << >>
=============================================================================
