------------------------------ MODULE Predictor -----------------------------
(***************************************************************************)
(* The whole predictor: the probability of the next bit from the contexts   *)
(* of the text (module History), and what is learnt from the bit that came. *)
(*                                                                          *)
(* m = [h            the history                                            *)
(*      done, bits   the completed bytes, the bits of the unfinished one     *)
(*      em, nm       em[k + 1], nm[k + 1]: the mixers of order k used when   *)
(*                   its context is an edge or a node, by their index        *)
(*      ee, ne       likewise, adaptive probabilities that are inputs of     *)
(*                   these mixers                                           *)
(*      maps]        four adaptive probability maps, per context             *)
(* What was never used is absent: it has its starting value.                *)
(***************************************************************************)
EXTENDS Mixer, Apm, Sigmoid, Cost, Fnv, TLC

CONSTANTS BW, Cap
NewStats(bit, n) ==
  LET f == FreshStats(bit, Min2(n, Cap))
      c == CostAfterRun(Min2(n, Cap))
  IN  [est |-> f.est, recent |-> f.recent, runs |-> f.runs, cost |-> << c, c >>]
UpdStats(s, bit, extra) ==
  LET f == NextStats([est |-> s.est, recent |-> s.recent, runs |-> s.runs], bit)
  IN  [est |-> f.est, recent |-> f.recent, runs |-> f.runs, cost |-> extra]
H == INSTANCE History
Y == INSTANCE Bytes

Get(f, i, default) == IF i \in DOMAIN f THEN f[i] ELSE default
Put(f, i, v) == IF i \in DOMAIN f THEN [f EXCEPT ![i] = v] ELSE (i :> v) @@ f

-----------------------------------------------------------------------------
(* Coarse values that select mixers and probabilities                       *)

\* a number by its highest two bits
Log2Steps(n) == IF n < 2 THEN n
                ELSE LET cut == BitLenI(n) - 2 IN 2 * cut + n \div P2(cut)
CountKinds == Log2Steps(65535) + 1
FarKind(dist) == IF dist < 100 THEN 0 ELSE IF dist < 1000 THEN 1 ELSE IF dist < 10000 THEN 2 ELSE 3
\* which of two running costs is lower, and by how much
CostKind(s, n) ==
  IF s + s \div 2 < n THEN 0
  ELSE IF s + s \div 8 < n THEN 1
  ELSE IF s < n THEN 2
  ELSE IF s < n + n \div 8 THEN 3
  ELSE IF s < n + n \div 2 THEN 4 ELSE 5
\* how a context compares with the one of the order below
ChangeKind(below, r) ==
  IF below.node # r.node THEN 2
  ELSE IF r.node THEN (IF below.s.est = r.s.est THEN 1 ELSE 0)
  ELSE (IF below.count = r.count THEN 1 ELSE 0)

-----------------------------------------------------------------------------
(* One context                                                               *)

Pair(e) == LET q == 512 * e.p IN << q, Stretch(q) >>
DirectPairs == FoldLeft(LAMBDA acc, e : Append(acc, Pair(e)), << >>, DirectTab)
Fixed == << Squash(2 * WOne), 2 * WOne >>
NewMixer(size) == Make("Mixer", size, "first", 10)

\* byte: the unfinished one; top: is it the longest context; low: the prediction
\* of the order below
EdgeGuess(m, k, r, byte, top, change, low) ==
  LET ei == Log2Steps(r.count) * 256 + byte
      e == Get(m.ee[k], ei, EstNew)
      mi == ((top * 3 + change) * 4 + FarKind(r.dist)) * 2 + r.bit
      x == [Get(m.em[k], mi, NewMixer(4)) EXCEPT !.in =
              << low, DirectPairs[r.count + 1], Fixed, Pair(e) >>]
      st == MixSt(x)
  IN  [node |-> FALSE, ei |-> ei, e |-> e, mi |-> mi, x |-> x, sq |-> Squash(st), st |-> st]
NodeGuess(m, k, r, top, change, low) ==
  LET ei == Log2Steps(r.s.runs.last) * 2 + r.s.runs.bit
      e == Get(m.ne[k], ei, EstNew)
      mi == (((top * 3 + change) * 6 + CostKind(r.s.cost[1], r.s.cost[2])) * 4 + FarKind(r.dist))
              * CountKinds + Log2Steps(r.s.runs.opp)
      x == [Get(m.nm[k], mi, NewMixer(3)) EXCEPT !.in = << low, Pair(r.s.est), Pair(e) >>]
      st == MixSt(x)
  IN  [node |-> TRUE, ei |-> ei, e |-> e, mi |-> mi, x |-> x, sq |-> Squash(st), st |-> st,
       cost |-> r.s.cost]

\* all contexts, from the shortest: each one refines the guess of the one before
Chain(m, reps, byte) ==
  FoldLeft(LAMBDA acc, k :
             LET r == reps[k]
                 top == IF k = Len(reps) THEN 1 ELSE 0
                 change == IF k = 1 THEN 0 ELSE ChangeKind(reps[k - 1], r)
                 low == IF k = 1 THEN << Half, 0 >> ELSE << acc[k - 1].sq, acc[k - 1].st >>
             IN  Append(acc, IF r.node THEN NodeGuess(m, k, r, top, change, low)
                             ELSE EdgeGuess(m, k, r, byte, top, change, low)),
           << >>, [k \in 1..Len(reps) |-> k])

ChainSq(c) == IF c = << >> THEN Half ELSE c[Len(c)].sq
ChainSt(c) == IF c = << >> THEN 0 ELSE c[Len(c)].st

NewCosts(g, bit) ==
  << TrackBit(g.cost[1], g.x.in[2][1], bit), TrackBit(g.cost[2], g.x.in[3][1], bit) >>
\* of the contexts that are nodes, the shortest first
CostsOf(chain, bit) == FoldLeft(LAMBDA acc, c : IF c.node THEN Append(acc, NewCosts(c, bit)) ELSE acc,
                                << >>, chain)

EdgeMax == 300
NodeMax == 100
LearnChain(m, chain, bit) ==
  LET is(k, node) == k <= Len(chain) /\ chain[k].node = node
      ests(f, node) == TLCEval([k \in 1..Len(f) |->
        IF is(k, node) THEN Put(f[k], chain[k].ei, EstUpd(chain[k].e, bit)) ELSE f[k]])
      mixs(f, node, max) == TLCEval([k \in 1..Len(f) |->
        IF is(k, node) THEN Put(f[k], chain[k].mi, Learn(chain[k].x, bit, chain[k].sq, max)) ELSE f[k]])
  IN  [m EXCEPT !.em = mixs(@, FALSE, EdgeMax), !.nm = mixs(@, TRUE, NodeMax),
                !.ee = ests(@, FALSE), !.ne = ests(@, TRUE)]

-----------------------------------------------------------------------------
(* The final refinement                                                      *)

Stops == FoldLeft(LAMBDA acc, j : Append(acc, Squash(StopSt(0, j))), << >>, [j \in 1..StopsCount(0) |-> j])
Scales == ScalesOf(Stops)
MapIndex(m) ==
  LET u == Y!DefUnfinished(m.bits)
      b(n) == Y!DefPrevious(m.done, n)
  IN  << u, Y!DefPair(m.done, m.bits), Fold16(Fnv(<< b(2), b(1), u >>)),
         Fold16(Fnv(<< b(3), b(2), b(1), u >>)) >>
\* (a + b + c + d) / 4, rounded
Quarter(a, b, c, d) ==
  WInt(WShr(WAdd(WAdd(WAdd(WOf(a), WOf(b)), WAdd(WOf(c), WOf(d))), << 0, 2 >>), 2))
MapAt(m, n, i) == Get(m.maps[n], i, NewMap(Stops))

Final(m, sq, st) ==
  LET i == MapIndex(m)
      l0 == Look(0, Stops, Scales, sq, st)
      o0 == Refine(MapAt(m, 1, i[1]), l0)
      mid == Quarter(sq, sq, sq, o0)
      l1 == Look(0, Stops, Scales, mid, Stretch(mid))
      o(n) == Refine(MapAt(m, n, i[n]), l1)
      out == Quarter(o(2), o(3), o(3), o(4))
  IN  [index |-> i, looks |-> << l0, l1, l1, l1 >>, out |-> out]

MapRate == 5
LearnFinal(m, f, bit) ==
  [m EXCEPT !.maps = TLCEval([n \in 1..4 |-> Put(@[n], f.index[n],
                       Update(MapAt(m, n, f.index[n]), f.looks[n], bit, MapRate, TRUE))])]

\* the bytes, bit by bit
PushBit(m, bit) ==
  LET bits == Append(m.bits, bit)
  IN  IF Len(bits) = BW THEN [m EXCEPT !.done = Append(@, Y!BitsVal(bits)), !.bits = << >>]
      ELSE [m EXCEPT !.bits = bits]

-----------------------------------------------------------------------------
(* The machine                                                               *)

Start(w, mo) ==
  LET none == [k \in 1..(mo + 1) |-> << >>]
  IN  [h |-> H!HistInit(w, mo), done |-> << >>, bits |-> << >>,
       em |-> none, nm |-> none, ee |-> none, ne |-> none,
       maps |-> << << >>, << >>, << >>, << >> >>]

Open(m) == [m EXCEPT !.h = H!StartByte(m.h)]

Guess(m) ==
  LET c == TLCEval(Chain(m, TLCEval(H!Reports(m.h)), Y!DefUnfinished(m.bits)))
      sq == ChainSq(c)
      st == ChainSt(c)
      f == Final(m, sq, st)
  IN  [chain |-> c, sq |-> sq, st |-> st, index |-> f.index, looks |-> f.looks,
       final |-> Coded(f.out)]

LearnBit(m, g, bit) ==
  [PushBit(LearnFinal(LearnChain(m, g.chain, bit), g, bit), bit)
     EXCEPT !.h = H!NextBit(m.h, bit, CostsOf(g.chain, bit))]
=============================================================================
