------------------------------ MODULE MTTrace ------------------------------
(* Recorded outputs of the generator.                                        *)
EXTENDS MersenneTwister, TraceBase

VARIABLES tr, at, s
vars == << tr, at, s >>
T == Trace[tr]
Steps(t) == Len(t.fmt)

\* the published generator starts with a full regeneration: the state word
\* that leaves first is the first one of the second generation
Start(t) == IF t.kind = "vector" THEN VectorState(t.key) ELSE ScalarState(t.key[1])
Init == /\ tr \in 1..Len(Trace) /\ at = 0 /\ s = Start(Trace[tr])
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr /\ s' = MTNext(s)
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

\* first outputs published for the key 0x12345, 0x23456, 0x34567, 0x45678
Published == << WSmall(74565), WSmall(144470), WSmall(214375), WSmall(284280) >>
ASSUME MTOutput(MTNext(VectorState(Published))) = << 127, 157, 85, 42, 85, 155, 215, 100 >>

Output ==
  at > 0 =>
    LET w == MTOutput(s)
        o == T.out[at]
        m == WShr64(w, 11)
    IN  CASE T.fmt[at] = 0 -> o = w
          [] T.fmt[at] = 1 -> o = WShr64(w, 1)
          (* reals, in 1/2^53: [0, 1] by division by 2^53 - 1, which adds less than two units *)
          [] T.fmt[at] = 2 ->
               /\ WMinus(o, m) \in {WSmall(0), WSmall(1), WSmall(2)}
               /\ m = WZero64 => o = m
               /\ m = WMinus(WShl64(One64, 53), One64) => o = WShl64(One64, 53)
               /\ \E n \in {0, 1} : WMinus(o, WPlus(m, WShr64(WPlus(m, WShl64(WSmall(n), 51)), 52))) \in {WSmall(0), WSmall(1)}
          [] T.fmt[at] = 3 -> o = m
          [] T.fmt[at] = 4 -> o = WPlus(WShl64(WShr64(w, 12), 1), One64)
=============================================================================
