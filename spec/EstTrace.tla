------------------------------ MODULE EstTrace ------------------------------
(* Recorded estimators and precomputed estimators against Stats.            *)
EXTENDS Stats, TraceBase

VARIABLES tr, at, e
vars == << tr, at, e >>
T == Trace[tr]
Steps(t) == IF t.kind \in {"slowing", "steady"} THEN Len(t.input) ELSE Len(t.r)

\* probabilities 0 and 1 are taken for the nearest ones that are not certain
Near(p) == Max2(1, Min2(EstOne - 1, p))

(* The other kind moves by 1/128 of the distance, in 1/2^16                 *)
Steady(p, bit) == IF bit = 0 THEN p + (65536 - p) \div 128 ELSE p - p \div 128

Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ e = CASE Trace[tr].kind = "slowing" -> [p |-> Near(Trace[tr].p0), n |-> Trace[tr].n0]
                 [] Trace[tr].kind = "steady" -> [p |-> Trace[tr].p0]
                 [] OTHER -> << >>
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ e' = CASE T.kind = "slowing" -> EstUpd(e, T.input[at'])
                  [] T.kind = "steady" -> [p |-> Steady(e.p, T.input[at'])]
                  [] OTHER -> e
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

Exact == CASE T.kind = "slowing" -> T.p[at + 1] = 512 * e.p /\ T.n[at + 1] = e.n
           [] T.kind = "steady" -> T.p[at + 1] = 32768 * e.p
           [] OTHER -> TRUE
\* strictly between impossible and certain
Uncertain == T.kind \in {"slowing", "steady"} => T.p[at + 1] > 0 /\ T.p[at + 1] <= M31

Cached ==
  (T.kind = "cached" /\ at > 0) =>
    LET o == T.r[at]
        n == at - 1
        one == EstUpd(EstAfterRun(0, n), 1)
        \* edges start from one previous use
        d == DirectTab[at]
    IN  /\ << o[1], o[2] >> = << 512 * one.p, one.n >>
        \* mirrored
        /\ << o[3], o[4] >> = << 512 * (EstOne - one.p), one.n >>
        /\ o[5] = 512 * d.p
        /\ o[6] = 1
Rates ==
  (T.kind = "rates" /\ at > 0) =>
    LET d == (at - 1) * T.factor + T.addend
    IN  T.r[at] = (M31 \div d) + (IF M31 % d = d - 1 THEN 1 ELSE 0)
Refused == (T.kind = "refused" /\ at > 0) => T.r[at] = 1
=============================================================================
