------------------------------ MODULE ApmTrace -------------------------------
(* Recorded life of an adaptive probability map.                             *)
(*   << 1, context, p, st, b of the table, ok, result >>     refining         *)
(*   << 2, context, bit, rate, fixed weight, ok >>           updating         *)
EXTENDS Apm, TraceBase

VARIABLES tr, at, state, was
vars == << tr, at, state, was >>
T == Trace[tr]
Steps(t) == Len(t.e)
\* the scales of the intervals, by precision
Scales == FoldLeft(LAMBDA acc, b :
                     Append(acc, LET rs == SelectSeq(Trace, LAMBDA t : t.b = b /\ t.stops # << >>)
                                 IN  IF rs = << >> THEN << >> ELSE ScalesOf(rs[1].stops)),
                   << >>, << 0, 1, 2 >>)
LookT(t, e) == Look(t.b, t.stops, Scales[t.b + 1], e[3], e[4])
ConsistentT(t, e) == Consistent(t.b, t.stops, e[3], e[4])
\* the maps of the contexts that are used, in the order of t.used
Pos(t, c) == IF c < Len(t.used) /\ t.used[c + 1] = c THEN c + 1
             ELSE CHOOSE k \in 1..Len(t.used) : t.used[k] = c
CanRefine(t, s, e) == s.look = << >> /\ e[5] = t.b /\ e[2] < t.contexts
CanUpdate(t, s, e) == s.look # << >> /\ e[2] < t.contexts /\ CanRate(e[4])
Follow(t, s, e) ==
  CASE e[1] = 1 -> IF CanRefine(t, s, e) THEN [s EXCEPT !.look = LookT(t, e)] ELSE s
    [] e[1] = 2 -> IF CanUpdate(t, s, e)
                   THEN [maps |-> [s.maps EXCEPT ![Pos(t, e[2])] = Update(@, s.look, e[3], e[4], e[5] = 1)],
                         look |-> << >>]
                   ELSE s
Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ state = [maps |-> [c \in 1..Len(Trace[tr].used) |-> NewMap(Trace[tr].stops)], look |-> << >>]
        /\ was = state
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ was' = state /\ state' = Follow(T, state, T.e[at'])
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

E == T.e[at]
Ok(x) == IF x THEN 1 ELSE 0
Exact == at > 0 =>
  CASE E[1] = 1 -> IF CanRefine(T, was, E)
                   THEN E[6] = 1 /\ E[7] = Refine(was.maps[Pos(T, E[2])], state.look)
                   ELSE E[6] = 0
    [] E[1] = 2 -> E[6] = Ok(CanUpdate(T, was, E))
\* before its first update a map returns its input
Fresh == (at = 1 /\ E[1] = 1 /\ E[6] = 1) => Abs(E[7] - Inside(T.stops, E[3])) <= 4
Increasing == \A j \in 1..(Len(T.stops) - 1) : T.stops[j] < T.stops[j + 1]
Sane == at = 0 => Len(T.stops) = StopsCount(T.b) /\ Increasing
=============================================================================
