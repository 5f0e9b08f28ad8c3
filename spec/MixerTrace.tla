----------------------------- MODULE MixerTrace ------------------------------
(* Recorded life of a mixer: creation, then its calls in order.              *)
(*   << 1, i, p, st, ok >>               setting input i                     *)
(*   << 2, ok, p, st, squash(st) >>      mixing                              *)
(*   << 3, bit, p, max, ok, weights >>   learning                            *)
(*   << 4, i, ok, p, st >>               reading input i                     *)
EXTENDS Mixer, TraceBase

VARIABLES tr, at, m, was
vars == << tr, at, m, was >>
T == Trace[tr]
Steps(t) == Len(t.e)
Made(t) == CanMake(t.kind, t.size, t.mode, t.idx)
Follow(x, e) ==
  CASE e[1] = 1 -> IF CanSet(x, e[2]) THEN SetInput(x, e[2], e[3], e[4]) ELSE x
    [] e[1] = 3 -> IF CanLearn(x, e[2], e[3], e[4]) THEN Learn(x, e[2], e[3], e[4]) ELSE x
    [] OTHER -> x
Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ m = IF Made(Trace[tr]) THEN Make(Trace[tr].kind, Trace[tr].size, Trace[tr].mode, Trace[tr].idx) ELSE << >>
        /\ was = m
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ was' = m /\ m' = Follow(m, T.e[at'])
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

Started == at = 0 => /\ T.made = (IF Made(T) THEN 1 ELSE 0)
                     /\ Made(T) => T.w = m.w
E == T.e[at]
Ok(x) == IF x THEN 1 ELSE 0
Exact == at > 0 =>
  CASE E[1] = 1 -> E[5] = Ok(CanSet(was, E[2]))
    [] E[1] = 2 -> IF Ready(was) THEN E[2] = 1 /\ E[4] = MixSt(was) /\ E[3] = E[5] ELSE E[2] = 0
    [] E[1] = 3 -> IF CanLearn(was, E[2], E[3], E[4])
                   THEN E[5] = 1 /\ SubSeq(E, 6, Len(E)) = m.w ELSE E[5] = 0
    [] E[1] = 4 -> IF CanGet(was, E[2]) THEN E[3] = 1 /\ << E[4], E[5] >> = was.in[E[2] + 1] ELSE E[3] = 0
=============================================================================
