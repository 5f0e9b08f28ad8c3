----------------------------- MODULE ReportTrace ----------------------------
(***************************************************************************)
(* Reports printed by the real predictor and by the demixer program.        *)
(*                                                                         *)
(* text   bytes, the prediction of every bit (pred), and what was printed   *)
(*        after n bytes (snaps: [n, LUT cost, average context length, per   *)
(*        type [count, cost, average occurrences], per symbol [code, count, *)
(*        cost]]), or by the program (main: total bytes, total bits,        *)
(*        length, bits per byte, ratio, average context length, LUT cost)   *)
(* file   a large file: what happened in blocks of 512 bytes (e, as in      *)
(*        Report, and the exact cost in 1/2^14 bits), the size of the real   *)
(*        code, snaps and main                                              *)
(*                                                                         *)
(* Printed numbers are integers in units of their last digit.               *)
(***************************************************************************)
EXTENDS Cost, Report, TraceBase

BW == 8
Cap == 1000
NewStats(bit, n) == FreshStats(bit, Min2(n, Cap))
UpdStats(s, bit, extra) == NextStats(s, bit)
H == INSTANCE History

VARIABLES tr, at, hh, acc, info
vars == << tr, at, hh, acc, info >>

T == Trace[tr]
Steps(t) == IF t.kind = "text" THEN Len(t.pred) ELSE Len(t.e)
BitAt(t, n) == (t.bytes[(n - 1) \div 8 + 1] \div P2(7 - ((n - 1) % 8))) % 2
Begin(t, h, n) == IF n % 8 = 0 /\ n < 8 * Len(t.bytes) THEN H!StartByte(h) ELSE h

\* -log2(p / 2^23) in 1/2^14, truncation aside
FineBits == 14
FineLog(p) ==
  LET len == BitLenI(p)
  IN  (24 - len) * P2(FineBits) - LogDigits(p * P2(31 - len), FineBits, 0)
FineCost(p, bit) == FineLog(IF bit = 0 THEN p ELSE FinalOne - p)

Times(r) == IF r.node THEN r.s.est.n ELSE r.count

Init == /\ tr \in 1..Len(Trace)
        /\ at = 0
        /\ hh = IF Steps(Trace[tr]) = 0 \/ Trace[tr].kind = "file" THEN << >> ELSE Begin(Trace[tr], H!HistInit(10000000, 20), 0)
        /\ acc = IF Trace[tr].kind = "file" THEN WideInit ELSE ReportInit
        /\ info = IF Trace[tr].kind = "file" THEN WZero ELSE 0                       \* the exact cost
Next == /\ at < Steps(T)
        /\ at' = at + 1
        /\ tr' = tr
        /\ IF T.kind = "file"
           THEN acc' = WideBlock(acc, 8, T.e[at']) /\ info' = WAdd(info, WOf(T.e[at'][4])) /\ UNCHANGED hh
           ELSE
           LET bit == BitAt(T, at')
               rep == TLCEval(H!Reports(hh))
               p == T.pred[at']
           IN  /\ acc' = ReportBit(acc, 8, bit, CostOf(p, bit), Len(rep),
                                   Len(SelectSeq(rep, LAMBDA r : ~r.node)),
                                   IF rep = << >> THEN 0 ELSE Times(rep[Len(rep)]))
               /\ info' = info + FineCost(p, bit)
               /\ hh' = Begin(T, H!NextBit(hh, bit, [n \in 1..21 |-> 0]), at')
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)

-----------------------------------------------------------------------------
NoPanic == T.err = ""
Complete == T.kind = "text" => Len(T.pred) = 8 * Len(T.bytes)

\* printed x is num / den, in units of its last digit, half a unit either way
Near(x, num, den) ==
  LET q == num \div den
  IN  Abs(x - q) <= 4 /\ Abs(2 * (den * (x - q) - (num % den))) <= den + 1
\* printed bytes, two digits, for a cost in 1/2^11 bits: cost / 2^14 * 100
NearCost(x, cost) ==
  LET q == cost \div 4096
  IN  x \div 32 < q + 50 /\ Abs(x - 25 * q) <= 60 /\ Abs(2 * (4096 * (x - 25 * q) - 25 * (cost % 4096))) <= 4096 + 2

SnapHolds(s) ==
  /\ NearCost(s[2], acc.cost)
  /\ acc.bits > 0 => Near(s[3], 1000 * acc.ctx, acc.bits)
  /\ Len(s[4]) = 25
  /\ \A n \in 1..25 : LET a == acc.types[n]
                          x == s[4][n]
                      IN  /\ Near(x[1], 25 * a[1], 2)
                          /\ NearCost(x[2], a[2])
                          /\ a[1] > 0 => Near(x[3], 1000 * a[3], a[1])
  /\ \A n \in 1..Len(s[5]) : LET a == Sym(acc, s[5][n][1])
                             IN  s[5][n][2] = a[1] /\ NearCost(s[5][n][3], a[2])
  \* every printable symbol that occurred is listed
  /\ \A c \in DOMAIN acc.syms : (c >= 32 /\ c < 127) => \E n \in 1..Len(s[5]) : s[5][n][1] = c

Snapshots ==
  (T.kind = "text" /\ acc.bits % 8 = 0) =>
    \A n \in 1..Len(T.snaps) : T.snaps[n][1] = acc.bytes => SnapHolds(T.snaps[n])

\* m: bytes (3 digits), bits (3), length, bits per byte (5), ratio (3)
MutuallyRight(m) ==
  /\ m[2] >= 0 /\ m[3] > 0
  /\ Abs(m[1] - m[2] \div 8) <= 1
  \* len * (bpb +- 1/2) = bits +- 1/2 
  /\ LET d == WSub(WMul(m[4], m[3]), WMul(100, m[2]))
     IN  ~WLess(<< 0, m[3] \div 2 + 51 >>, WAbs(d))
  \* ratio * bits = 8 * len
  /\ LET d == WSub(WMul(m[5], m[2]), WMul(8000000, m[3]))
     IN  ~WLess(<< 0, m[2] \div 2 + m[5] \div 2 + 1 >>, WAbs(d))

MainHolds(m) ==
  /\ m[3] = Len(T.bytes)
  /\ MutuallyRight(m)
  \* bits, three digits
  /\ LET q == info \div 16384
         d == 16384 * (m[2] - 1000 * q)
     IN  Abs(m[2] - 1000 * q) <= 2000 /\ Abs(d - 1000 * (info % 16384)) <= 8193 + 1100 * (acc.bits + 1)
  /\ Near(m[6], 1000 * acc.ctx, acc.bits)
  /\ NearCost(m[7], acc.cost)
Program == (T.kind = "text" /\ at = Steps(T) /\ Len(T.main) > 0) => MainHolds(T.main)

\* the same for wide sums: |den * x - num| <= den / 2
NearWide(x, num, den) == x >= 0 /\ ~WLess(<< 0, den + 1 >>, WAbs(WSub(WMul(2 * den, x), WAdd(num, num))))
Hundred(w) == WAdd(WShl(w, 6), WAdd(WShl(w, 5), WShl(w, 2)))
Thousand(w) == WSub(WShl(w, 10), WAdd(WShl(w, 4), WShl(w, 3)))
NearCostWide(x, cost) == NearWide(x, Hundred(cost), 16384)

LargeSnapHolds(s) ==
  /\ NearCostWide(s[2], acc.cost)
  /\ NearWide(s[3], Thousand(acc.ctx), acc.bits)
  /\ Len(s[4]) = 25
  /\ \A n \in 1..25 : LET a == acc.types[n]
                          x == s[4][n]
                      IN  /\ NearWide(x[1], Hundred(WOf(a[1])), 8)
                          /\ NearCostWide(x[2], a[2])
                          /\ a[1] > 0 => NearWide(x[3], Thousand(a[3]), a[1])
  /\ \A n \in 1..Len(s[5]) : LET a == acc.syms[s[5][n][1]]
                             IN  s[5][n][2] = a[1] /\ NearCostWide(s[5][n][3], a[2])
  /\ \A c \in 32..126 : acc.syms[c][1] > 0 => \E n \in 1..Len(s[5]) : s[5][n][1] = c
LargeSnapshots ==
  T.kind = "file" => \A n \in 1..Len(T.snaps) : (T.snaps[n][1] = acc.bytes) => LargeSnapHolds(T.snaps[n])

\* f: as m; T.code: bytes of the real code, which ends at most a few bytes
\* after the cost
LargeHolds(m) ==
  /\ m[3] = T.len /\ acc.bytes = T.len
  /\ MutuallyRight(m)
  /\ NearWide(m[2], Thousand(info), 16384) \/ NearWide(m[2] - 1, Thousand(info), 16384) \/ NearWide(m[2] + 1, Thousand(info), 16384)
  /\ NearWide(m[6], Thousand(acc.ctx), acc.bits)
  /\ NearCostWide(m[7], acc.cost)
  \* tables are right to 1/2^11 per bit
  /\ Abs(10 * m[7] - m[1]) <= 5 + (T.len * 1000) \div 1024
  /\ Abs(m[1] \div 1000 - T.code) <= 8 + T.len \div 1000
Large == (T.kind = "file" /\ at = Steps(T)) => LargeHolds(T.main) /\ Len(T.snaps) > 0
=============================================================================
