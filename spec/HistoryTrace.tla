---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the history sources against History.                   *)
(*                                                                         *)
(* One recorded run: a window size w, a maximal order mo, input bytes; for *)
(* each bit the contexts reported before it (rep), the cost trackers given *)
(* back for the node contexts (costs) and, for the tree, the number of     *)
(* live nodes; at each byte start the shape of the tree.                   *)
(***************************************************************************)
EXTENDS Stats, TraceBase

CONSTANTS BW, Cap

\* the cost trackers' starting values, by run length, as the code has them
CostTab == Trace[1].cost

NewStats(bit, n) ==
  LET f == FreshStats(bit, Min2(n, 1000))
      c == CostTab[Min2(n, 1000) + 1]
  IN  [est |-> f.est, recent |-> f.recent, runs |-> f.runs, cost |-> << c, c >>]
UpdStats(s, bit, extra) ==
  LET f == NextStats([est |-> s.est, recent |-> s.recent, runs |-> s.runs], bit)
  IN  [est |-> f.est, recent |-> f.recent, runs |-> f.runs, cost |-> extra]

H == INSTANCE History

VARIABLES tr, at, h
vars == << tr, at, h >>

T == Trace[tr]
BitsOf(b) == [n \in 1..8 |-> (b \div P2(8 - n)) % 2]
\* the bits for which something was recorded (all of them unless the code stopped)
Steps(t) == IF t.kind = "luts" THEN 0 ELSE Len(t.costs)

\* the n-th bit (from 0) is the first one of a byte
StartsByte(n) == (n % 8) = 0

\* h is the state in which report number i + 1 is made
Begin(t, hh, n) == IF StartsByte(n) /\ n < 8 * Len(t.bytes) THEN H!StartByte(hh) ELSE hh

Init == /\ tr \in 1..Len(Trace)
        /\ at = 0
        /\ h = IF Steps(Trace[tr]) = 0 THEN << >>
               ELSE Begin(Trace[tr], H!HistInit(Trace[tr].w, Trace[tr].mo), 0)

InputBit(t, n) == BitsOf(t.bytes[(n - 1) \div 8 + 1])[((n - 1) % 8) + 1]

Next == /\ at < Steps(T)
        /\ at' = at + 1
        /\ tr' = tr
        \* cost trackers may be missing if the code reported too few nodes
        /\ h' = Begin(T, H!NextBit(h, InputBit(T, at'), T.costs[at'] \o
                                   [n \in 1..(T.mo + 1) |-> << 0, 0 >>]), at')
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)

Waiting == at < Steps(T)          \* a report for h has been recorded
Rep == T.rep[at + 1]

\* the code did not stop early, its own integrity checks included
NoPanic == T.err = ""

-----------------------------------------------------------------------------
(* Full agreement of every reported context                                 *)

Matches(e, o) ==
  IF e.node
  THEN /\ o[1] = 1
       /\ o[2] = e.dist
       /\ o[3] = e.s.est.p * 512 /\ o[4] = e.s.est.n
       /\ o[5] = e.s.runs.bit /\ o[6] = e.s.runs.last
       /\ o[7] = e.s.runs.opp /\ o[8] = e.s.runs.prev
       /\ (T.source # "naive" => << o[9], o[10] >> = e.s.cost)
       /\ SubSeq(o, 11, Len(o)) = e.s.recent
  ELSE o = << 0, e.dist, e.count, e.bit >>

ReportsExact ==
  Waiting => LET e == H!Reports(h)
             IN  /\ Len(Rep) = Len(e)
                 /\ \A n \in 1..Len(e) : Matches(e[n], Rep[n])

\* definitions that scan the whole window: everywhere in small windows, at the
\* end of long runs
Scanned == Waiting /\ (T.w <= 64 \/ at >= 8 * (Len(T.bytes) - 8))

-----------------------------------------------------------------------------
(* C03: without sliding, by definition over the whole text                  *)

DefinedAt(k, o) ==
  LET occ == H!Occurrences(h, k)
      last == CHOOSE s \in occ : \A s2 \in occ : s2 <= s
      bits == { H!BitAfter(h, k, s) : s \in occ }
  IN  /\ occ # {}
      /\ o[2] = (H!Cur(h) - k) - last
      /\ IF Cardinality(bits) = 2 THEN o[1] = 1
         ELSE o[1] = 0 /\ o[3] = Min2(Cap, Cardinality(occ)) /\ {o[4]} = bits

DefinitionHolds ==
  Scanned =>
    /\ Len(Rep) = H!Active(h)
    /\ \A n \in 1..Len(Rep) : DefinedAt(n - 1, Rep[n])

-----------------------------------------------------------------------------
(* C04: with sliding, orders, distances and kinds come from the window only *)

WindowOnlyAt(k, o) ==
  LET occ == H!Occurrences(h, k)
      last == CHOOSE s \in occ : \A s2 \in occ : s2 <= s
      bits == { H!BitAfter(h, k, s) : s \in occ }
  IN  /\ occ # {}
      /\ o[2] = (H!Cur(h) - k) - last
      /\ (o[1] = 1) = (Cardinality(bits) = 2)
      /\ o[1] = 0 => {o[4]} = bits

WindowOnly ==
  Scanned => /\ Len(Rep) = H!Active(h)
             /\ \A n \in 1..Len(Rep) : WindowOnlyAt(n - 1, Rep[n])

-----------------------------------------------------------------------------
(* C05: the tree is the set of branching strings                            *)

IsTree == T.kind # "luts" /\ T.source = "tree"
LiveExact == (Waiting /\ IsTree) =>
               /\ T.live[at + 1] = Cardinality(DOMAIN h.nodes)
               /\ T.live[at + 1] <= Max2(1, T.w - 1)
AtByteStart == Waiting /\ StartsByte(at)

\* (every fifth byte where that is much work)
NodesAreBranching ==
  (AtByteStart /\ IsTree /\ T.w <= 64 /\ (T.w * Min2(T.mo, T.w) <= 150 \/ (at \div 8) % 5 = 0)) => DOMAIN h.nodes = H!Branching(h.bits, h.mo)

\* a shape entry: depth, a leaf to the left, a leaf to the right, leaf flags
ShapeExact ==
  (AtByteStart /\ IsTree) =>
    LET sh == T.shape[at \div 8 + 1]
        n == Len(h.bits)
        Has(off, d) == 8 * off + d < n
    IN  /\ \A q \in 1..Len(sh) :
             LET d == sh[q][1]
                 l == sh[q][2]
                 r == sh[q][3]
             IN  /\ Has(l, d) /\ Has(r, d)
                 /\ H!Agree(h.bits, l, r, d)
                 /\ h.bits[8 * l + d + 1] = 0
                 /\ h.bits[8 * r + d + 1] = 1
        /\ { H!Str(h.bits, sh[q][2], sh[q][1]) : q \in 1..Len(sh) } = DOMAIN h.nodes
        /\ Len(sh) = Cardinality(DOMAIN h.nodes)
        /\ T.size[at \div 8 + 1] = h.size
=============================================================================
