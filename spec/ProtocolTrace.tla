---------------------------- MODULE ProtocolTrace ----------------------------
(* Recorded calls of real components: a call is refused exactly when the     *)
(* protocol forbids it.  Recording ends with the first refusal.              *)
(* t = [m machine, c << << call >>, .. >>, ok << 0 or 1, .. >>, err]         *)
EXTENDS Protocol, TraceBase

VARIABLES tr, at, now
vars == << tr, at, now >>
T == Trace[tr]
Steps(t) == Len(t.c)
Init == tr \in 1..Len(Trace) /\ at = 0 /\ now = Initial(Trace[tr].m)
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ now' = IF T.ok[at + 1] = 1 /\ Permits(T.m, now, T.c[at + 1]) THEN After(T.m, now, T.c[at + 1]) ELSE now
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)

NoPanic == T.err = "" /\ Len(T.ok) = Len(T.c)
Refused(n) == n < Steps(T) => (~Permits(T.m, now, T.c[n + 1]) => T.ok[n + 1] = 0)
Permitted(n) == n < Steps(T) => (Permits(T.m, now, T.c[n + 1]) /\ ~Indifferent(T.m, T.c[n + 1]) => T.ok[n + 1] = 1)
ForbiddenIsRefused == Refused(at)
PermittedIsAccepted == Permitted(at)
=============================================================================
