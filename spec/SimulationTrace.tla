-------------------------- MODULE SimulationTrace ---------------------------
(* What entropy_simulations and bench_sigmoid printed.                       *)
(* Decimal numbers are recorded as << whole part, seven digits >>.            *)
EXTENDS Simulation, TraceBase

VARIABLES tr, at, simst
vars == << tr, at, simst >>
T == Trace[tr]
Chunk == 100
Words == 1500
Samples == 1000
Steps(t) == CASE t.kind = "row" -> IF t.all = 1 THEN Bits \div Chunk ELSE 0
              [] t.kind = "bench" -> Words
              [] OTHER -> 0

BenchInit == [mt |-> MTNext(ScalarState(DefaultSeed)), n |-> 0, sq |-> WZero, sqe |-> WZero, st |-> WZero, ste |-> WZero]
\* one more sample: what it adds, and how far the addends may be off
BenchSample(a, x) ==
  LET q == Squash(x)
      e == 2 * SquashError(q)
      low == Logit(Max2(MinMapped, Min2(Neg(MinMapped), IF q > e THEN q - e ELSE 1)))
      high == Logit(Max2(MinMapped, Min2(Neg(MinMapped), IF q < M31 - e THEN q + e ELSE M31)))
  IN  [a EXCEPT !.n = @ + 1, !.sq = WAdd(@, << 0, q >>), !.sqe = WAdd(@, << 0, e >>),
                !.st = WAdd(@, WOf(Stretch(q))), !.ste = WAdd(@, << 0, (high - low) + 2 * StretchError(q) >>)]
BenchStep(a) ==
  LET w == MTOutput(a.mt)
      b == IF a.n < Samples /\ Sampled(w) THEN BenchSample(a, SampleOf(w)) ELSE a
  IN  [b EXCEPT !.mt = IF a.n < Samples THEN MTNext(@) ELSE @]

Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ simst = CASE Trace[tr].kind = "row" -> SimInit(Trace[tr].row[1])
                   [] Trace[tr].kind = "bench" -> BenchInit
                   [] OTHER -> << >>
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ simst' = CASE T.kind = "row" -> SimMany(simst, T.row[1], KindIndex(<< T.row[3], T.row[4] >>), T.row[2], at * Chunk, Chunk)
                    [] T.kind = "bench" -> BenchStep(simst)
                    [] OTHER -> simst
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

\* every row, in order
Table == T.kind = "table" => T.rows = [n \in 1..RowCount |-> RowAt(n)]

-----------------------------------------------------------------------------
\* in units of the last of n digits, of the seven recorded
Ten == << 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000 >>
Digits(d, n) == WAdd(WMul(d[1], Ten[n + 1]), WOf(d[2] \div Ten[8 - n]))
\* 2 units per unit of error of either factor, and the rounding
Product(a, b, c, unit) ==
  LET p == WMul(WInt(a), WInt(b))
      e == WAdd(WShl(WAdd(a, b), 1), WOf(unit))
      d == WSub(p, c)
  IN  WLess(WAbs(d), e)
\* floor of ten million times x / 2^60, x < 2^60
Seven(x) == LET y == WShrL(x, 30)
            IN  WInt(WShrL(WMul(WInt(y), 10000000), 30))
\* the sums that were printed are those of the bits
Counts ==
  (T.kind = "row" /\ at = 0) =>
    LET z == ZerosOf(T.row[1])
        seven == Seven(Probability(T.row[1]))
        ideal == WRound(WMul(WInt(WShr(IdealCost(z, Bits - z), 14)), 10000), 16)    \* 1/10,000
        total == Digits(T.cost, 4)
        ratio == Digits(T.ratio, 4)
        over == Digits(T.over, 5)
    IN  /\ T.zeros = z /\ T.ones = Bits - z
        /\ T.prob[1] = 0 /\ T.prob[2] \in seven..(seven + 1)
        /\ WLess(WAbs(WSub(Digits(T.ideal, 4), ideal)), << 0, 4 >>)
        \* 1 + overhead times the ideal cost, and the ratio times the cost
        /\ Product(IF T.neg = 1 THEN WSub(<< 0, 100000 >>, over) ELSE WAdd(<< 0, 100000 >>, over),
                   Digits(T.ideal, 4), WMul(WInt(total), 100000), 200000)
        /\ Product(ratio, total, WMul(100000000, 10000), 20000)
\* the whole cost, to the last digit
Total ==
  (T.kind = "row" /\ at = Bits \div Chunk) =>
    LET c == simst.cost % 2048
        f == (c * 78125) \div 16
    IN  /\ simst.zeros = T.zeros
        /\ T.cost[1] = simst.cost \div 2048
        /\ T.cost[2] \in f..(f + 1)

\* sums of so many loops over the samples, divided by them
Sums ==
  (T.kind = "bench" /\ at = Words) =>
    /\ simst.n = Samples
    /\ T.warm = T.squash
    /\ WLess(WAbs(WSub(T.squash, simst.sq)), simst.sqe)
    /\ WLess(WAbs(WSub(T.stretch, simst.st)), simst.ste)
=============================================================================
