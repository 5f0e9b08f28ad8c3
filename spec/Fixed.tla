-------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed point arithmetic: a number is a signed integer in units of 2^-f,  *)
(* stored in a given number of bits, signed or not.                        *)
(*  - losing precision rounds to nearest, ties away from zero; the half    *)
(*    that is added saturates at the largest magnitude                     *)
(*  - what cannot be represented is refused, never wrapped around          *)
(***************************************************************************)
EXTENDS Big

\* the largest magnitude in a type
MaxMag(bits, sg) == BSub(B2(IF sg THEN bits - 1 ELSE bits), << 1 >>)
Fits(x, bits, sg) ==
  IF x.neg THEN sg /\ BLeq(x.mag, B2(bits - 1)) ELSE BLeq(x.mag, MaxMag(bits, sg))

\* x / 2^s and x / d, rounded
Down(x, bits, sg, s) ==
  Sgn(x.neg, BShr(BMin(BAdd(x.mag, B2(s - 1)), MaxMag(bits, sg)), s))
Div(x, bits, sg, d) ==
  Sgn(x.neg, BDiv(BMin(BAdd(x.mag, BShr(d.mag, 1)), MaxMag(bits, sg)), d.mag))

\* floor(x / 2^s)
Floor(x, s) ==
  IF x.neg THEN Sgn(TRUE, BShr(BAdd(x.mag, BSub(B2(s), << 1 >>)), s))
  ELSE Sgn(FALSE, BShr(x.mag, s))

Refused == [ok |-> FALSE]
Ok(x) == [ok |-> TRUE, x |-> x]
Checked(x, bits, sg) == IF Fits(x, bits, sg) THEN Ok(x) ELSE Refused

\* from f to fr fractional bits; wide is the width in which rounding happens
Rescale(x, wide, sg, f, fr, rbits) ==
  IF f > fr THEN Checked(Down(x, wide, sg, f - fr), rbits, sg)
  ELSE Checked(SShl(x, fr - f), rbits, sg)

Conv(x, bits, sg, f, rbits, fr) ==
  Rescale(x, IF rbits > bits THEN rbits ELSE bits, sg, f, fr, rbits)
Mul(x, y, sg, f, f2, rbits, fr) == Rescale(SMul(x, y), 64, sg, f + f2, fr, rbits)
Add(x, y, bits, sg) == Checked(SAdd(x, y), bits, sg)
Sub(x, y, bits, sg) == Checked(SSub(x, y), bits, sg)

\* 1 - x, for a fraction 0 < x < 1
Flip(x, bits) ==
  LET r == SSub(Sgn(FALSE, B2(bits - 1)), x)
  IN  IF BLess(r.mag, B2(bits - 1)) THEN Ok(r) ELSE Refused

\* types that hold less than their bits: a fraction in [0, 1), a stretched probability, the probability of a coder
Limit(r, lim, f) ==
  CASE lim = 1 -> IF r.neg \/ ~BLess(r.mag, B2(f)) THEN Refused ELSE Ok(r)
    [] lim = 2 -> IF BLeq(r.mag, BShl(<< 12 >>, f)) THEN Ok(r) ELSE Refused
    [] lim = 3 -> IF BLess(B2(f), r.mag) THEN Refused
                  ELSE IF r.mag = << >> THEN Ok(Sgn(FALSE, << 1 >>))
                  ELSE Ok(Sgn(FALSE, BMin(r.mag, BSub(B2(f), << 1 >>))))
    [] OTHER -> Ok(r)

(* Floats are m * 2^e.                                                        *)
\* n rounded to its first p bits, ties to even
RoundEven(n, p) ==
  LET s == BBits(n) - p
      q == BShr(n, s)
      rest == BMod2(n, s)
      up == BLess(B2(s - 1), rest) \/ (rest = B2(s - 1) /\ BBit(q, 0) = 1)
  IN  IF s <= 0 THEN n ELSE BShl(IF up THEN BAdd(q, << 1 >>) ELSE q, s)
\* m * 2^e = n / 2^f
SameFloat(m, e, n, f) == IF e + f >= 0 THEN BShl(m, e + f) = n ELSE m = BShl(n, -(e + f))
\* m * 2^e in units of 2^-f: without what is below the unit, and kept within the type
FromFloat(x, e, bits, sg, f) ==
  LET r == Sgn(x.neg, IF e + f >= 0 THEN BShl(x.mag, e + f) ELSE BShr(x.mag, -(e + f)))
  IN  IF Fits(r, bits, sg) THEN r
      ELSE IF ~x.neg THEN Sgn(FALSE, MaxMag(bits, sg))
      ELSE IF sg THEN Sgn(TRUE, B2(bits - 1)) ELSE Sgn(FALSE, << >>)

\* values kept within -lim .. lim (whole units, f fractional bits)
Bound(lim, f) == BShl(lim, f)
Clamp(x, lim, f) == Sgn(x.neg, BMin(x.mag, Bound(lim, f)))
Limited(x, lim, f) == IF BLeq(x.mag, Bound(lim, f)) THEN Ok(x) ELSE Refused

\* equal intervals over -lim .. lim, 2^n per unit; the last one is closed
Intervals(lim, n) == Sgn(FALSE, BShl(BAdd(lim, lim), n))
Interval(x, lim, f, n) ==
  LET top == Sgn(FALSE, BSub(Bound(lim, f), << 1 >>))
      y == IF SLess(top, x) THEN top ELSE x
  IN  SAdd(Floor(y, f - n), Sgn(FALSE, BShl(lim, n)))
=============================================================================
