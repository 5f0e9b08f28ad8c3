------------------------------- MODULE BytesMC -------------------------------
(* All texts of at most MaxLen bytes: the register always agrees with the    *)
(* definition.                                                               *)
EXTENDS Bytes
CONSTANT MaxLen
VARIABLES b, done, bits
vars == << b, done, bits >>

Init == b = BytesInit /\ done = << >> /\ bits = << >>
Start == /\ CanStart(b) /\ Len(done) < MaxLen
         /\ b' = BytesStart(b) /\ bits' = << >> /\ UNCHANGED done
Push == /\ CanPush(b)
        /\ \E bit \in {0, 1} :
             /\ b' = BytesPush(b, bit)
             /\ IF Len(bits) = BW - 1
                THEN done' = Append(done, BitsVal(Append(bits, bit))) /\ bits' = << >>
                ELSE bits' = Append(bits, bit) /\ UNCHANGED done
Next == Start \/ Push
Spec == Init /\ [][Next]_vars

Agree == b.open =>
  /\ RegUnfinished(b) = DefUnfinished(bits)
  /\ \A n \in 1..3 : RegPrevious(b, n) = DefPrevious(done, n)
  /\ RegPair(b) = DefPair(done, bits)
\* the mark makes different amounts of known bits different
Marked == b.open => RegUnfinished(b) \in Pow2(Len(bits))..(Pow2(Len(bits) + 1) - 1)
=============================================================================
