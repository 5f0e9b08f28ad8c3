------------------------------ MODULE BitsTrace -----------------------------
(***************************************************************************)
(* Recorded bit history summaries against Stats.                           *)
(***************************************************************************)
EXTENDS Stats, TraceBase

VARIABLES tr, at, s       \* s: the expected summary, for runs of updates
vars == << tr, at, s >>
T == Trace[tr]
Steps(t) == IF t.kind = "bits" THEN Len(t.runs) - 1 ELSE Len(t.r)

-----------------------------------------------------------------------------
Count(q, b) == Len(SelectSeq(q, LAMBDA x : x = b))
RECURSIVE Number(_, _)       \* bits as a number, the newest lowest
Number(q, acc) == IF q = << >> THEN acc ELSE Number(Tail(q), 2 * acc + Head(q))
\* the last 7 bits below a marker: at bit 7 if all of them are there
Last7(q) == IF Len(q) >= 7 THEN 128 + Number(SubSeq(q, Len(q) - 6, Len(q)), 0)
            ELSE P2(Len(q)) + Number(q, 0)
RecentReport(q) == << 1, 16 * Count(q, 1) + Count(q, 0), Last7(q) >> \o q

RunsReport(r) ==
  << r.bit, r.last, r.opp, r.prev, IF r.opp = 0 /\ r.prev = 0 THEN 1 ELSE 0 >>

\* state of both summaries at the start
StartOf(t) ==
  CASE t.start = 0 -> [recent |-> << >>, runs |-> RunsOf(0, 0)]
    [] t.start = 1 -> [recent |-> RecentRun(t.sb, t.sn), runs |-> RunsOf(t.sb, t.sn)]
    [] OTHER -> [recent |-> RecentUpd(RecentRun(1 - t.sb, t.sn), t.sb),
                 runs |-> RunsUpd(RunsOf(1 - t.sb, t.sn), t.sb)]

Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ s = IF Trace[tr].kind = "bits" THEN StartOf(Trace[tr]) ELSE << >>
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ s' = IF T.kind = "bits"
                THEN [recent |-> RecentUpd(s.recent, T.input[at']), runs |-> RunsUpd(s.runs, T.input[at'])]
                ELSE s
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

Updates ==
  T.kind = "bits" =>
    /\ T.recent[at + 1] = RecentReport(s.recent)
    /\ T.runs[at + 1] = RunsReport(s.runs)
    /\ T.same[at + 1] = IF s.runs.opp = 0 /\ s.runs.prev = 0 THEN 1 ELSE 0

\* the n-th history, shorter ones first: its bits are those of n below the leading one
RECURSIVE LeadBit(_)
LeadBit(n) == IF n < 2 THEN 0 ELSE 1 + LeadBit(n \div 2)
BitsBelow(n) == LET k == LeadBit(n) IN [m \in 1..k |-> (n \div P2(k - m)) % 2]
AllHistories ==
  (T.kind = "recent_all" /\ at > 0) =>
    LET n == T.first + at
    IN  IF n < 65536 THEN T.r[at] = RecentReport(BitsBelow(n)) ELSE T.r[at] = << 1 >>

Starts ==
  (T.kind = "starts" /\ at > 0) =>
    LET o == T.r[at]
        q == IF o.node = 0 THEN RecentRun(o.b, o.n)
             ELSE RecentUpd(RecentRun(1 - o.b, o.n), o.b)
        r == IF o.node = 0 THEN RunsOf(o.b, o.n) ELSE RunsUpd(RunsOf(1 - o.b, o.n), o.b)
    IN  o.recent = RecentReport(q) /\ o.runs = RunsReport(r)
=============================================================================
