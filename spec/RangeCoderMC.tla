---------------------------- MODULE RangeCoderMC ----------------------------
(***************************************************************************)
(* Exhaustive check of the coder design for small digits and windows:      *)
(*  - every sequence of decisions is recovered by the decoder, which        *)
(*    consumes exactly the digits that were written (RoundTrip);            *)
(*  - postponing digits until no carry can reach them (first digit held,    *)
(*    runs of maximal digits counted) writes the exact digits of low        *)
(*    (DelayedIsExact);                                                     *)
(*  - intervals are nested and never empty (Nested).                        *)
(***************************************************************************)
EXTENDS RangeCoder, TLC

CONSTANT MaxOps

VARIABLES e, ops, dly
vars == << e, ops, dly >>

\* postponed emission: digits are kept back while a carry may still change them
\*   w: digits really written, last: the held digit, has: is there one,
\*   run: number of maximal digits held after it, cy: carry pending
DlyInit == [w |-> << >>, last |-> 0, has |-> FALSE, run |-> 0, cy |-> TRUE,
            buf |-> 0, rng |-> WMaxV]

Rep(d, n) == [i \in 1..n |-> d]
PutDigit(y, d) ==
  IF d # Digit - 1 \/ y.cy
  THEN [y EXCEPT
          !.w = @ \o (IF y.has THEN << y.last + (IF y.cy THEN 1 ELSE 0) >> ELSE << >>)
                  \o Rep(IF y.cy THEN 0 ELSE Digit - 1, y.run),
          !.run = 0, !.last = d, !.has = TRUE, !.cy = FALSE]
  ELSE [y EXCEPT !.run = @ + 1]

RECURSIVE DlyNorm(_)
DlyNorm(y) ==
  IF y.rng < Bottom
  THEN LET z == PutDigit(y, y.buf \div Bottom)
       IN  DlyNorm([z EXCEPT !.buf = (y.buf % Bottom) * Digit, !.rng = y.rng * Digit])
  ELSE y
DlyAdd(y, x) ==
  IF x > WMaxV - y.buf THEN [y EXCEPT !.cy = TRUE, !.buf = (x - (WMaxV - @)) - 1]
  ELSE [y EXCEPT !.buf = @ + x]
DlyStep(y0, kind, p) ==
  LET y == DlyNorm(y0)
      h == Scale(y.rng, p)
  IN  CASE kind = 0 -> [y EXCEPT !.rng = h]
        [] kind = 1 -> LET f == DlyAdd(y, h) IN [f EXCEPT !.rng = @ - h]
        [] kind = 2 -> [y EXCEPT !.rng = @ - 1]
        [] kind = 3 -> LET f == DlyAdd(y, y.rng - 1) IN [f EXCEPT !.rng = 1]
RECURSIVE DlyFlush(_, _, _)
DlyFlush(y, v, n) == IF n = 0 THEN y.w
                     ELSE DlyFlush(PutDigit(y, v \div Bottom), (v % Bottom) * Digit, n - 1)

Init == e = EncInit /\ ops = << >> /\ dly = DlyInit

\* a rare event needs a range of at least two, guaranteed after normalising
Next ==
  /\ Len(ops) < MaxOps
  /\ \E kind \in 0..3, p \in 1..(P2(P) - 1) :
       /\ kind >= 2 => p = 1
       /\ e' = EncStep(e, kind, p)
       /\ dly' = DlyStep(dly, kind, p)
       /\ ops' = Append(ops, << kind, p >>)

Spec == Init /\ [][Next]_vars

RECURSIVE Decodes(_, _, _)
Decodes(s, d, k) ==
  IF k > Len(ops) THEN d.pos = Len(s)
  ELSE LET r == DecStep(s, d, ops[k][1] >= 2, ops[k][2])
       IN  r[1] = ops[k][1] /\ Decodes(s, r[2], k + 1)

RoundTrip == LET s == Stream(e) IN Decodes(s, DecInit(s), 1)
DelayedIsExact == DlyFlush(dly, dly.buf, TailLen + 1) = Stream(e)
\* the interval is never empty and stays inside the unit interval
RECURSIVE Top(_)
Top(d) == d = << >> \/ (d[Len(d)] = Digit - 1 /\ Top(SubSeq(d, 1, Len(d) - 1)))
Nested == /\ e.rng >= 1
          /\ e.buf \in 0..WMaxV
          /\ (e.rng - 1 > WMaxV - e.buf) => ~Top(e.out)
Bounded == Len(Stream(e)) = TailLen + Len(e.out)
=============================================================================
