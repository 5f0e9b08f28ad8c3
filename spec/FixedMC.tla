------------------------------ MODULE FixedMC -------------------------------
(***************************************************************************)
(* The rounding operators of Fixed against their meaning, for every number *)
(* of a few bits: the result is nearest, ties go away from zero, nothing   *)
(* wraps, and negation commutes with it.                                   *)
(***************************************************************************)
EXTENDS Fixed
CONSTANTS Bits
VARIABLES x, sg
vars == << x, sg >>
P(n) == 2 ^ n
Lo(s) == IF s THEN -P(Bits - 1) ELSE 0
Hi(s) == IF s THEN P(Bits - 1) - 1 ELSE P(Bits) - 1
Init == sg \in BOOLEAN /\ x = Lo(sg)
Next == x < Hi(sg) /\ x' = x + 1 /\ sg' = sg
Spec == Init /\ [][Next]_vars

AbsI(n) == IF n < 0 THEN -n ELSE n
\* n is x / d to the nearest, ties away from zero
Nearest(n, v, d) == /\ 2 * AbsI(v - n * d) <= d
                    /\ 2 * AbsI(v - n * d) = d => AbsI(n * d) > AbsI(v)
\* unless the half that is added would leave the type
Clear(v, h) == AbsI(v) + h <= Hi(sg)

Rounds ==
  /\ \A s \in 1..(Bits - 1) :
       LET n == SInt(Down(SOf(x), Bits, sg, s))
       IN  /\ Clear(x, P(s - 1)) => Nearest(n, x, P(s))
           /\ AbsI(x) <= Hi(sg) => AbsI(x - n * P(s)) < P(s)
           /\ n >= Lo(sg) /\ n <= Hi(sg)
           /\ sg => SInt(Down(SOf(-x), Bits, sg, s)) = -n
  /\ \A d \in 1..Hi(sg) :
       LET n == SInt(Div(SOf(x), Bits, sg, SOf(d)))
       IN  /\ Clear(x, d \div 2) => Nearest(n, x, d)
           /\ AbsI(x) <= Hi(sg) => AbsI(x - n * d) < d
           /\ sg => SInt(Div(SOf(-x), Bits, sg, SOf(d))) = -n
  /\ \A s \in 0..Bits : SInt(Floor(SOf(x), s)) = x \div P(s)

Products ==
  \A y \in Lo(sg)..Hi(sg) :
    /\ SInt(SMul(SOf(x), SOf(y))) = x * y
    /\ SInt(SAdd(SOf(x), SOf(y))) = x + y
    /\ SInt(SSub(SOf(x), SOf(y))) = x - y
    /\ SLess(SOf(x), SOf(y)) = (x < y)
    /\ Fits(SOf(x + y), Bits, sg) = (x + y >= Lo(sg) /\ x + y <= Hi(sg))

\* floats of p digits: nearest, the even one of two
Floats ==
  x >= 0 => \A p \in 1..Bits :
    LET n == BInt(RoundEven(BOf(x), p))
        u == IF BBits(BOf(x)) > p THEN P(BBits(BOf(x)) - p) ELSE 1
    IN  /\ n % u = 0
        /\ 2 * AbsI(x - n) <= u
        /\ 2 * AbsI(x - n) = u => (n \div u) % 2 = 0
        /\ \A f \in 0..3, e \in -4..4 : \A m \in 0..7 :
             SameFloat(BOf(m), e, BOf(x), f) = (IF e + f >= 0 THEN m * P(e + f) = x ELSE m = x * P(-(e + f)))
\* what comes from a float is the part of it above the unit, or the end of the type
FromFloats ==
  \A e \in -3..3, f \in 0..2 :
    LET n == SInt(FromFloat(SOf(x), e, Bits, sg, f))
        k == P(AbsI(e + f))
        v == IF e + f >= 0 THEN x * k ELSE IF x < 0 THEN -((-x) \div k) ELSE x \div k
    IN  n = (IF v > Hi(sg) THEN Hi(sg) ELSE IF v < Lo(sg) THEN Lo(sg) ELSE v)

\* intervals partition the range, and every value is in one
Partition ==
  LET f == Bits - 3     \* two whole units on either side
      n == 2
      k == SInt(Interval(SOf(x), << 2 >>, f, n))
  IN  (sg /\ AbsI(x) <= 2 * P(f)) =>
        /\ k >= 0 /\ k < SInt(Intervals(<< 2 >>, n))
        /\ (k - 2 * P(n)) * P(f - n) <= x
        /\ x <= (k + 1 - 2 * P(n)) * P(f - n)
=============================================================================
