------------------------------ MODULE FarTrace ------------------------------
(***************************************************************************)
(* Reports recorded at chosen points of texts of tens of thousands of      *)
(* bytes, against the definition over the text (what slides out of the     *)
(* window is forgotten).  History keeps the same notions incrementally;    *)
(* here they are evaluated from scratch, byte-wise, where they are needed. *)
(*                                                                         *)
(* A position is a byte offset from 0; the byte at s is bytes[s + 1].       *)
(***************************************************************************)
EXTENDS Stats, TraceBase

VARIABLES tr, at
vars == << tr, at >>

T == Trace[tr]
Steps(t) == Len(t.points)
Init == tr \in 1..Len(Trace) /\ at = 0
\* the points are independent: visited like a heap, so that workers share them
Next == \E d \in 1..2 : 2 * at + d <= Steps(T) /\ at' = 2 * at + d /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

Cap == 1000
Few == 3000        \* statistics are recomputed for contexts that occurred so often at most
                   \* after the first run

\* starts of earlier occurrences of the k bytes before position i in the window
\* from lo on, oldest first, for k = 0, 1, .. in turn; the previous ones extended
\* to the left
OneMore(b, lo, i, k, before) ==
  LET c == b[i - k + 1]
  IN  SelectSeq(TLCEval([m \in 1..Len(before) |-> before[m] - 1]),
                LAMBDA s : s >= lo /\ b[s + 1] = c)

RECURSIVE Starts(_, _, _, _, _, _)
Starts(b, lo, i, k, mo, found) ==
  IF k > mo \/ i - k < lo THEN found
  ELSE LET s == TLCEval(IF k = 0 THEN [m \in 1..(i - lo) |-> lo + m - 1]
                        ELSE OneMore(b, lo, i, k, found[k]))
       IN  IF s = << >> THEN found ELSE Starts(b, lo, i, k + 1, mo, Append(found, s))

BitOf(x, j) == (x \div P2(7 - j)) % 2

\* occurrences of the order-k context that has j bits of byte i; never beyond it
Occ(b, i, k, j, starts) ==
  LET d == P2(8 - j)
      p == b[i + 1] \div d
  IN  SelectSeq(starts, LAMBDA s : s + k < i /\ b[s + k + 1] \div d = p)

\* the occurrences for every order that has some
RECURSIVE Active(_, _, _, _, _)
Active(b, i, j, starts, found) ==
  LET k == Len(found)
  IN  IF k = Len(starts) THEN found
      ELSE LET o == TLCEval(Occ(b, i, k, j, starts[k + 1]))
           IN  IF o = << >> THEN found ELSE Active(b, i, j, starts, Append(found, o))

-----------------------------------------------------------------------------
\* what must be reported for one context; f = << bits that followed, oldest first >>,
\* x: where the first run of equal ones has ended
FirstOther(f) == SelectInSeq(f, LAMBDA e : e # f[1])
StatsOf(f, x) == FoldLeft(NextStats, FreshStats(f[x], Min2(x - 1, Cap)), SubSeq(f, x + 1, Len(f)))

SameStats(o, s) ==
  /\ o[3] = s.est.p * 512 /\ o[4] = s.est.n
  /\ o[5] = s.runs.bit /\ o[6] = s.runs.last /\ o[7] = s.runs.opp /\ o[8] = s.runs.prev
  /\ SubSeq(o, 11, Len(o)) = s.recent

\* i - k: where the context starts; next: the bits that followed, oldest first
KindAndPlace(i, k, occ, next, o) ==
  /\ o[2] = (i - k) - occ[Len(occ)]
  /\ (o[1] = 1) = \E m \in 1..Len(next) : next[m] # next[1]
  /\ o[1] = 0 => o[4] = next[1]

Counted(next, o) ==
  IF o[1] = 0 THEN o[3] = Min2(Cap, Len(next))
  ELSE LET x == FirstOther(next)
       IN  Len(next) - x <= Few => SameStats(o, StatsOf(next, x))

Judge(Also(_, _)) ==
  (at > 0) =>
    LET b == T.bytes
        i == T.points[at]
        starts == TLCEval(Starts(b, Max2(0, i + 1 - T.w), i, 0, T.mo, << >>))
    IN  \A j \in 0..7 :
          LET act == TLCEval(Active(b, i, j, starts, << >>))
              next == TLCEval([k \in 1..Len(act) |->
                                 [m \in 1..Len(act[k]) |-> BitOf(b[act[k][m] + k], j)]])
          IN  \A q \in 1..Len(T.sources) :
                LET rep == T.rep[q][at][j + 1]
                IN  /\ Len(rep) = Len(act)
                    /\ \A k \in 1..Len(act) :
                         /\ KindAndPlace(i, k - 1, act[k], next[k], rep[k])
                         /\ Also(next[k], rep[k])

\* C03: everything is a function of the text
TextDefinesReports == Judge(Counted)
\* C04: kinds and places are functions of the window
WindowDefinesContexts == Judge(LAMBDA next, o : TRUE)
=============================================================================
