----------------------------- MODULE TreesTrace -----------------------------
(***************************************************************************)
(* Large trees, recorded at chosen moments, against the window's content.  *)
(*                                                                         *)
(* Sort the suffixes of the window.  Two neighbours part at some bit, or   *)
(* one is a prefix of the other, or they agree as far as contexts look.    *)
(* Every string that the window continues both ways is the common part of  *)
(* exactly one pair of neighbours that part: the last one that goes left   *)
(* and the first one that goes right.  So the number of branching strings  *)
(* is the number of such pairs, and a set of that many different branching *)
(* strings has all of them.  The order is recorded as a proposal and       *)
(* verified here.                                                          *)
(***************************************************************************)
EXTENDS Wide, TraceBase, FiniteSets

VARIABLES tr, at
vars == << tr, at >>

T == Trace[tr]
Steps(t) == Len(t.points)
Init == tr \in 1..Len(Trace) /\ at = 0
\* the points are independent: visited like a heap, so that workers share them
Next == \E d \in 1..2 : 2 * at + d <= Steps(T) /\ at' = 2 * at + d /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

\* the complete bytes in the window when byte i starts
Content(t, i) == SubSeq(t.bytes, Max2(0, i + 1 - t.w) + 1, i)

RECURSIVE FirstDifferent(_, _)
FirstDifferent(x, y) == \* highest bit (0 first) in which two different bytes differ
  IF (x \div 128) # (y \div 128) THEN 0 ELSE 1 + FirstDifferent((2 * x) % 256, (2 * y) % 256)

\* where the suffixes at a and b part, in bits, or -1; up to order mo
RECURSIVE Part(_, _, _, _, _)
Part(c, a, b, k, mo) ==
  IF k > mo \/ a + k >= Len(c) \/ b + k >= Len(c) THEN -1
  ELSE IF c[a + k + 1] # c[b + k + 1] THEN 8 * k + FirstDifferent(c[a + k + 1], c[b + k + 1])
  ELSE Part(c, a, b, k + 1, mo)

BitAt(c, a, d) == (c[a + (d \div 8) + 1] \div P2(7 - (d % 8))) % 2
\* a suffix that ends first is the smaller one
Ordered(c, a, b, mo) ==
  LET d == Part(c, a, b, 0, mo)
  IN  IF d >= 0 THEN BitAt(c, a, d) = 0
      ELSE a > b \/ (a + mo + 1 <= Len(c) /\ b + mo + 1 <= Len(c))

\* the string of d bits at a, as a value
Value(c, a, d) ==
  << d, SubSeq(c, a + 1, a + (d \div 8)),
     IF d % 8 = 0 THEN 0 ELSE c[a + (d \div 8) + 1] \div P2(8 - (d % 8)) >>

TreeIsExact ==
  (at > 0) =>
    LET i == T.points[at]
        c == TLCEval(Content(T, i))
        n == Len(c)
        ord == T.order[at]
        sh == T.shape[at]
        pairs == { q \in 1..(n - 1) : Part(c, ord[q], ord[q + 1], 0, T.mo) >= 0 }
    IN  /\ Len(ord) = n /\ { ord[q] : q \in 1..n } = 0..(n - 1)
        /\ \A q \in 1..(n - 1) : Ordered(c, ord[q], ord[q + 1], T.mo)
        /\ \A q \in 1..Len(sh) :
             LET d == sh[q][1]
                 l == sh[q][2]
                 r == sh[q][3]
             IN  /\ Part(c, l, r, 0, T.mo) = d
                 /\ BitAt(c, l, d) = 0
        /\ Cardinality({ Value(c, sh[q][2], sh[q][1]) : q \in 1..Len(sh) }) = Len(sh)
        /\ Len(sh) = Cardinality(pairs)
        /\ T.live[i + 1] = Len(sh)

Bounded == (at = 0) => \A q \in 1..Len(T.live) : T.live[q] <= Max2(1, T.w - 1)
=============================================================================
