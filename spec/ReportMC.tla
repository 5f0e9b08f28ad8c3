------------------------------ MODULE ReportMC ------------------------------
(***************************************************************************)
(* All short sequences of bits with bytes of BW bits, costs 1..MaxCost and  *)
(* numbers of contexts up to MaxCtx, with a record of everything that       *)
(* happened, against which the totals are defined.                          *)
(***************************************************************************)
EXTENDS Report, FiniteSets, SequencesExt
CONSTANTS BW, MaxCost, MaxCtx, Depth
VARIABLES acc, log
Init == acc = ReportInit /\ log = << >>
Next == /\ Len(log) < Depth
        /\ \E bit \in 0..1, c \in 1..MaxCost, k \in 0..MaxCtx :
             \E u \in {0, k} :
               /\ log' = Append(log, << bit, c, k, u >>)
               /\ acc' = ReportBit(acc, BW, bit, c, k, u, k)
Spec == Init /\ [][Next]_<< acc, log >>

Sum(f(_), s) == FoldLeft(LAMBDA n, e : n + f(e), 0, s)
\* the sums over everything
Totals == /\ acc.bits = Len(log)
          /\ acc.bytes = Len(log) \div BW
          /\ acc.cost = Sum(LAMBDA e : e[2], log)
          /\ acc.ctx = Sum(LAMBDA e : e[3], log)
\* every bit with a context has one type
Types == /\ Sum(LAMBDA e : e[1], acc.types) = Sum(LAMBDA e : IF e[3] > 0 THEN 1 ELSE 0, log)
         /\ Sum(LAMBDA e : e[2], acc.types) = Sum(LAMBDA e : IF e[3] > 0 THEN e[2] ELSE 0, log)
         /\ Sum(LAMBDA e : e[3], acc.types) = acc.ctx
         /\ \A n \in 1..25 : acc.types[n] = << 0, 0, 0 >> \/ \E i \in 1..Len(log) : TypeOf(log[i][3], log[i][4]) = n
\* symbols partition the complete bytes and their cost
RECURSIVE Val(_)
Val(s) == IF s = << >> THEN 0 ELSE 2 * Val(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)][1]
ByteAt(n) == SubSeq(log, BW * (n - 1) + 1, BW * n)
Symbols ==
  /\ acc.low = Val(SubSeq(log, BW * acc.bytes + 1, Len(log)))
  /\ acc.cur = Sum(LAMBDA e : e[2], SubSeq(log, BW * acc.bytes + 1, Len(log)))
  /\ \A s \in 0..(2 ^ BW - 1) :
       LET which == { n \in 1..acc.bytes : Val(ByteAt(n)) = s }
       IN  Sym(acc, s) = << Cardinality(which),
                            Sum(LAMBDA n : Sum(LAMBDA e : e[2], ByteAt(n)), SetToSeq(which)) >>
\* the blocks of the same bits have the same totals
KindsOf(l) == { << e[3], e[4] >> : e \in { l[i] : i \in 1..Len(l) } }
BlockOf(l) ==
  LET n == Len(l) \div BW
      kind(k) == LET m == SelectSeq(l, LAMBDA e : << e[3], e[4] >> = k)
                 IN  << k[1], k[2], Len(m), Sum(LAMBDA e : e[2], m), Sum(LAMBDA e : e[3], m) >>
      one(i) == SubSeq(l, BW * (i - 1) + 1, BW * i)
  IN  << Len(l), [i \in 1..Cardinality(KindsOf(l)) |-> kind(SetToSeq(KindsOf(l))[i])],
         [i \in 1..n |-> << Val(one(i)), 1, Sum(LAMBDA e : e[2], one(i)) >>] >>
Same(a, w) ==
  /\ w.bytes = a.bytes /\ w.bits = a.bits /\ WInt(w.ctx) = a.ctx /\ WInt(w.cost) = a.cost
  /\ \A n \in 1..25 : << w.types[n][1], WInt(w.types[n][2]), WInt(w.types[n][3]) >> = a.types[n]
  /\ \A s \in 0..(2 ^ BW - 1) : << w.syms[s][1], WInt(w.syms[s][2]) >> = Sym(a, s)
Blocks == (Len(log) % BW = 0) =>
  \A cut \in 0..(Len(log) \div BW) :
    LET l == SubSeq(log, 1, BW * cut)
        r == SubSeq(log, BW * cut + 1, Len(log))
    IN  Same(acc, WideBlock(WideBlock(WideInit, BW, BlockOf(l)), BW, BlockOf(r)))
=============================================================================
