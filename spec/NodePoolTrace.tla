--------------------------- MODULE NodePoolTrace ----------------------------
(* Recorded histories of the real node storage.                              *)
EXTENDS Stats, TraceBase, FiniteSets
P == INSTANCE NodePool

VARIABLES tr, at, pool
vars == << tr, at, pool >>
T == Trace[tr]
Steps(t) == IF t.kind = "pool" THEN Len(t.ops) ELSE Len(t.r)

-----------------------------------------------------------------------------
\* what the k-th node handed in holds: position, depth, counts of both bits,
\* both children (0: a position, 1: a place), costs, and the summary of a
\* context that saw n times the same bit, and then the other one
Given(t, k) ==
  LET x == t.nodes[k]
      n == x.n
      b == x.b
  IN  [own |-> << x.ts, x.depth >>, cnt |-> << x.l, x.r >>, kids |-> x.kids, costs |-> << x.c, 65535 - x.c >>,
       stats |-> [est |-> EstUpd(FoldLeft(LAMBDA e, i : EstUpd(e, 1 - b), EstNew, [i \in 1..n |-> i]), b),
                  recent |-> RecentUpd(RecentRun(1 - b, n), b),
                  runs |-> RunsUpd(RunsOf(1 - b, n), b)]]
\* one more bit: its count, up to the cap, and the summary; nothing else but the costs
MaxCount == 1000
Fed(x, b, c) == [x EXCEPT !.cnt[b + 1] = Min2(@ + 1, MaxCount),
                          !.stats = NextStats(x.stats, b),
                          !.costs = << c, 65535 - c >>]

Op == 1
Arg == 2
Val == 3
Ok == 4
Out == 5
Cnt == 6
\* operations on many places at once: 6 takes them, 7 gives them back
Many(t, o) == ToSet(t.many[o[Arg]])
After(t, p, o) ==
  IF o[Ok] = 0 THEN p
  ELSE CASE o[Op] = 0 -> P!Put(p, o[Out], Given(t, o[Arg]))
         [] o[Op] = 1 -> P!Put(p, o[Arg], Given(t, o[Val]))
         [] o[Op] = 2 -> P!Drop(p, o[Arg])
         [] o[Op] = 3 -> p
         [] o[Op] = 4 -> P!Put(p, o[Arg], Fed(p.held[o[Arg]], o[Val] % 2, o[Val] \div 2))
         [] o[Op] = 5 -> P!Drop(p, 0)
         [] o[Op] = 6 -> P!PutAll(p, Many(t, o), Given(t, o[Val]))
         [] o[Op] = 7 -> P!DropAll(p, Many(t, o))

Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ pool = IF Trace[tr].kind = "pool" THEN P!PoolNew(Trace[tr].limit) ELSE << >>
\* (if what it did is impossible, Legal below fails first)
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ pool' = IF T.kind = "pool" THEN TLCEval(After(T, pool, T.ops[at'])) ELSE pool
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

-----------------------------------------------------------------------------
IsPool == T.kind = "pool"
Waiting == IsPool /\ at < Steps(T)
O == T.ops[at + 1]

\* a place is given as long as there is one, and it is a free one
Taken == (Waiting /\ O[Op] = 0) =>
           IF P!PoolFull(pool) THEN O[Ok] = 0 ELSE O[Ok] = 1 /\ P!CanTake(pool, O[Out])
\* what is there can be used; a root that is not there cannot
Used == (Waiting /\ O[Op] \in 1..5) =>
          O[Ok] = IF O[Op] = 1 \/ O[Arg] \in P!Occupied(pool) THEN 1 ELSE 0
TakenMany == (Waiting /\ O[Op] = 6) =>
               LET k == Many(T, O)
               IN  /\ O[Ok] = 1
                   /\ Cardinality(k) = Len(T.many[O[Arg]])
                   /\ k \subseteq 1..(pool.limit - 1) /\ k \cap P!Occupied(pool) = {}
UsedMany == (Waiting /\ O[Op] = 7) => O[Ok] = 1
\* every place holds what was last put there
Number(q) == FoldLeft(LAMBDA acc, b : 2 * acc + b, 0, q)
Last7(q) == IF Len(q) >= 7 THEN 128 + Number(SubSeq(q, Len(q) - 6, Len(q))) ELSE P2(Len(q)) + Number(q)
Ones(q) == FoldLeft(LAMBDA acc, b : acc + b, 0, q)
Seen(x) ==
  x.own \o x.cnt \o x.kids \o x.costs
    \o << x.stats.est.p * 512, x.stats.est.n,
          x.stats.runs.bit, x.stats.runs.last, x.stats.runs.opp, x.stats.runs.prev,
          16 * Ones(x.stats.recent) + Len(x.stats.recent) - Ones(x.stats.recent), Last7(x.stats.recent) >>
Reads == (Waiting /\ O[Op] = 3 /\ O[Ok] = 1) => T.seen[O[Out]] = Seen(pool.held[O[Arg]])
\* the count is that of the occupied places (after each operation); the tree
\* has no inner nodes without a root
Counted == (IsPool /\ at > 0 /\ T.ops[at][Ok] = 1 /\ (0 \in P!Occupied(pool) \/ P!Occupied(pool) = {})) => T.ops[at][Cnt] = P!PoolCount(pool)

-----------------------------------------------------------------------------
\* a child is a position in the text or a place of an inner node, up to 2^31 - 1;
\* it is told apart and given back as it was; anything else is refused
Pair(q, k) == << q[k], q[k + 1] >>
Children == (T.kind = "child" /\ at > 0) =>
  LET r == T.r[at]
      form == r[1]
      num == Pair(r, 2)
      fits == num[1] = 0 /\ (form = 0 \/ num[2] > 0)
  IN  r[4] = (IF fits THEN 1 ELSE 0)
      /\ (fits => /\ r[5] = 1 /\ r[6] = 1 - form /\ r[7] = form
                  /\ Pair(r, 8) = num
                  \* asked for as what it is not: refused
                  /\ r[10] = 0)
\* a node has a position below 2^31, a depth below 2^16 and at least a history
Made == (T.kind = "made" /\ at > 0) =>
  LET r == T.r[at]
      fits == r[1] = 0 /\ r[3] = 0 /\ r[4] < 65536 /\ r[5] = 1
  IN  r[6] = (IF fits THEN 1 ELSE 0)
      /\ (fits => Pair(r, 7) = Pair(r, 1) /\ r[9] = r[4])
=============================================================================
