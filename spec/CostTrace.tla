------------------------------ MODULE CostTrace ------------------------------
(* Recorded logarithms, costs and running costs.                             *)
EXTENDS Cost, TraceBase

VARIABLES tr, at, x
vars == << tr, at, x >>
T == Trace[tr]
Steps(t) == Len(t.r)
\* refused costs leave the running cost as it was
Step(t, y, n) ==
  CASE t.kind = "track" -> IF CanTrack(t.cost[n]) THEN Track(y, t.cost[n]) ELSE y
    [] t.kind = "onbit" -> TrackBit(y, t.q[n], t.bit[n])
    [] t.kind = "pair" -> << TrackBit(y[1], t.q[n], t.bit[n]), TrackBit(y[2], t.q2[n], t.bit[n]) >>
    [] OTHER -> y
Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ x = IF Trace[tr].kind \in {"track", "onbit", "pair"} THEN Trace[tr].start ELSE 0
Next == at < Steps(T) /\ at' = at + 1 /\ tr' = tr /\ x' = Step(T, x, at')
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

R == T.r[at]
\* within a few units of 2^-31, of arguments in [1/2, 1)
FineLog(a, r) ==
  IF a < 1073741824 THEN r = << 0, 0 >>
  ELSE LET d == r[2] - LogDigits(a, 31, 0) IN r[1] = 1 /\ r[2] >= 0 /\ d >= -4 /\ d <= 4
Exact == at > 0 =>
  CASE T.kind = "log" -> IF T.x[at] = << >> THEN R = << 0, 0 >> ELSE R = << 1, LogOf(T.x[at], T.f) >>
    [] T.kind = "fine" -> FineLog(T.x[at], R)
    [] T.kind = "table" -> R = LogTab[at]
    [] T.kind = "cost" -> R = << CostOf(T.p[at], 0), CostOf(T.p[at], 1) >>
    [] T.kind = "track" -> R = << IF CanTrack(T.cost[at]) THEN 1 ELSE 0, x >>
    [] T.kind \in {"onbit", "pair"} -> R = x
    [] T.kind = "runs" -> R = CostAfterRun(at - 1)
    [] T.kind = "initial" -> R = CostStart
=============================================================================
