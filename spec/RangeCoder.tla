----------------------------- MODULE RangeCoder -----------------------------
(***************************************************************************)
(* The binary range coder as exact interval arithmetic.                    *)
(*                                                                         *)
(* An encoder that has seen a sequence of decisions owns a half-open       *)
(* interval [low, low + rng) of numbers written in base 2^B: `out' holds   *)
(* the most significant digits already shifted out of the W-bit window,    *)
(* `buf' the W low-order bits.  A carry out of the window is added to      *)
(* `out' immediately, so the number  out.buf  is exact at all times; how   *)
(* an implementation postpones the emission of digits is its own business. *)
(*                                                                         *)
(* Real coder: B = 8, W = 31, P = 23.                                      *)
(***************************************************************************)
EXTENDS Wide

CONSTANTS B, W, P

Digit == P2(B)
WMaxV == IF W = 31 THEN M31 ELSE P2(W) - 1           \* 2^W - 1
Bottom == P2(W - B)                                  \* renormalise below

\* a decision is <<kind, p>>: kind 0/1 = bit with probability-of-zero p / 2^P,
\* kind 2/3 = "rare event" that did not / did happen (p unused)
Scale(r, p) == IF W <= 15 THEN (r * p) \div P2(P) ELSE MulShr(r, p, P)

EncInit == [out |-> << >>, buf |-> 0, rng |-> WMaxV]

\* add one unit to the number written in digits d (no overflow beyond d[1])
RECURSIVE Ripple(_)
Ripple(d) ==
  LET n == Len(d)
  IN  IF d[n] = Digit - 1
      THEN Append(Ripple(SubSeq(d, 1, n - 1)), 0)
      ELSE [d EXCEPT ![n] = @ + 1]

\* move one digit out of the window
ShiftOut(e) == [out |-> Append(e.out, e.buf \div Bottom),
                buf |-> (e.buf % Bottom) * Digit,
                rng |-> e.rng * Digit]

RECURSIVE EncNorm(_)
EncNorm(e) == IF e.rng < Bottom THEN EncNorm(ShiftOut(e)) ELSE e

\* low := low + x
AddLow(e, x) ==
  IF x > WMaxV - e.buf
  THEN [e EXCEPT !.out = Ripple(@), !.buf = (x - (WMaxV - @)) - 1]
  ELSE [e EXCEPT !.buf = @ + x]

EncStep(e0, kind, p) ==
  LET e == EncNorm(e0)
      h == Scale(e.rng, p)
  IN  CASE kind = 0 -> [e EXCEPT !.rng = h]
        [] kind = 1 -> LET f == AddLow(e, h) IN [f EXCEPT !.rng = @ - h]
        [] kind = 2 -> [e EXCEPT !.rng = @ - 1]
        [] kind = 3 -> LET f == AddLow(e, e.rng - 1) IN [f EXCEPT !.rng = 1]

\* number of digits holding the W window bits left-aligned
TailLen == (W + B) \div B
TailBits == TailLen * B
\* the window as TailLen digits, left aligned with TailBits - W zero bits below.
\* TailBits - W is in 1..B for the coders considered here (1 for the real one).
RECURSIVE TailFrom(_, _)
TailFrom(v, n) == IF n = 0 THEN << >>
                  ELSE << v \div Bottom >> \o TailFrom((v % Bottom) * Digit, n - 1)
\* the finished code: all digits of low
Stream(e) == e.out \o TailFrom(e.buf, TailLen)

-----------------------------------------------------------------------------
(* The decoder: it sees the digits of the code one at a time.  `buf' is     *)
(* (code - low) in the current scale, `pos' the number of digits consumed.  *)

\* the W-bit window starting at digit position k of stream s (0-based shift)
\* is the first TailLen digits without the TailBits - W lowest bits
Skew == TailBits - W

\* the B bits entering the window after k digits are already inside: the low
\* Skew bits of digit k and the high B - Skew bits of digit k+1
NewBits(s, k) == (s[k] % P2(Skew)) * P2(B - Skew) + s[k + 1] \div P2(Skew)

RECURSIVE FirstWindow(_, _)
FirstWindow(s, n) ==
  IF n = 1 THEN s[1] \div P2(Skew)
  ELSE FirstWindow(s, n - 1) * Digit + NewBits(s, n - 1)

DecInit(s) == [buf |-> FirstWindow(s, TailLen), rng |-> WMaxV, pos |-> TailLen]

\* -1 in `bad' marks an attempt to read beyond the end of the code
RECURSIVE DecNorm(_, _)
DecNorm(s, d) ==
  IF d.rng >= Bottom THEN d
  ELSE IF d.pos >= Len(s) THEN [d EXCEPT !.rng = -1]
  ELSE DecNorm(s, [buf |-> d.buf * Digit + NewBits(s, d.pos),
                   rng |-> d.rng * Digit,
                   pos |-> d.pos + 1])

\* one decoding step: <<decision or -1, next decoder>>; isRare selects the kind
DecStep(s, d0, isRare, p) ==
  LET d == DecNorm(s, d0)
      h == Scale(d.rng, p)
  IN  IF d.rng < 0 THEN << -1, d >>
      ELSE IF isRare
      THEN IF d.buf < d.rng - 1 THEN << 2, [d EXCEPT !.rng = @ - 1] >>
           ELSE << 3, [d EXCEPT !.buf = 0, !.rng = 1] >>
      ELSE IF d.buf < h THEN << 0, [d EXCEPT !.rng = h] >>
           ELSE << 1, [d EXCEPT !.buf = @ - h, !.rng = @ - h] >>
=============================================================================
