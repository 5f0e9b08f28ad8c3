-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Natural numbers of any size, as little-endian sequences of base 2^15    *)
(* digits without leading (that is, trailing in the sequence) zeros, and   *)
(* signed numbers [neg, mag].                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768
BPow == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384 >>

RECURSIVE BNorm(_)
BNorm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BOf(_)       \* from a natural TLC integer
BOf(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o BOf(n \div Base)

RECURSIVE BInt(_)      \* to a TLC integer; must fit
BInt(a) == IF a = << >> THEN 0 ELSE a[1] + Base * BInt(Tail(a))

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, i, c) ==
  IF i > BMaxLen(a, b) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c
       IN  << s % Base >> \o BAddFrom(a, b, i + 1, s \div Base)
BAdd(a, b) == BAddFrom(a, b, 1, 0)

RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN << >>
  ELSE LET s == Dig(a, i) - Dig(b, i) - c
       IN  << s % Base >> \o BSubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == BNorm(BSubFrom(a, b, 1, 0))     \* a >= b

RECURSIVE BLessFrom(_, _, _)
BLessFrom(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF Dig(a, i) # Dig(b, i) THEN Dig(a, i) < Dig(b, i)
  ELSE BLessFrom(a, b, i - 1)
BLess(a, b) == BLessFrom(a, b, BMaxLen(a, b))
BLeq(a, b) == ~BLess(b, a)
BMin(a, b) == IF BLess(a, b) THEN a ELSE b

\* a * d + c for digits d, c
RECURSIVE BMulDigFrom(_, _, _, _)
BMulDigFrom(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET s == a[i] * d + c
       IN  << s % Base >> \o BMulDigFrom(a, d, i + 1, s \div Base)
BMulDig(a, d) == IF d = 0 THEN << >> ELSE BMulDigFrom(a, d, 1, 0)

RECURSIVE BMul(_, _)
BMul(a, b) ==
  IF b = << >> \/ a = << >> THEN << >>
  ELSE BAdd(BMulDig(a, b[1]),
            LET r == BMul(a, Tail(b)) IN IF r = << >> THEN r ELSE << 0 >> \o r)

BShl(a, s) ==
  IF a = << >> THEN a
  ELSE [i \in 1..(s \div 15) |-> 0] \o BMulDig(a, BPow[(s % 15) + 1])

BShr(a, s) ==
  LET d == s \div 15
      r == s % 15
      n == Len(a) - d
  IN  IF n <= 0 THEN << >>
      ELSE BNorm([i \in 1..n |->
             (a[i + d] \div BPow[r + 1]) +
             (Dig(a, i + d + 1) % BPow[r + 1]) * (Base \div BPow[r + 1])])
B2(s) == BShl(<< 1 >>, s)

\* a mod 2^s
BMod2(a, s) ==
  LET d == s \div 15
  IN  BNorm(IF Len(a) <= d THEN a
            ELSE SubSeq(a, 1, d) \o << a[d + 1] % BPow[(s % 15) + 1] >>)

\* number of bits
RECURSIVE DigBits(_)
DigBits(n) == IF n = 0 THEN 0 ELSE 1 + DigBits(n \div 2)
BBits(a) == IF a = << >> THEN 0 ELSE 15 * (Len(a) - 1) + DigBits(a[Len(a)])

BBit(a, i) == (Dig(a, (i \div 15) + 1) \div BPow[(i % 15) + 1]) % 2

\* floor(a / b), b > 0, by long division over the bits of a
RECURSIVE BDivFrom(_, _, _, _, _)
BDivFrom(a, b, i, rem, q) ==
  IF i < 0 THEN q
  ELSE LET r2 == BAdd(BShl(rem, 1), IF BBit(a, i) = 1 THEN << 1 >> ELSE << >>)
           ge == BLeq(b, r2)
       IN  BDivFrom(a, b, i - 1, IF ge THEN BSub(r2, b) ELSE r2,
                    BAdd(BShl(q, 1), IF ge THEN << 1 >> ELSE << >>))
BDiv(a, b) == BDivFrom(a, b, BBits(a) - 1, << >>, << >>)

-----------------------------------------------------------------------------
Sgn(neg, mag) == [neg |-> neg /\ mag # << >>, mag |-> mag]
SOf(n) == IF n < 0 THEN Sgn(TRUE, BOf(-n)) ELSE Sgn(FALSE, BOf(n))
SInt(x) == IF x.neg THEN -BInt(x.mag) ELSE BInt(x.mag)
SNeg(x) == Sgn(~x.neg, x.mag)
SAdd(x, y) ==
  IF x.neg = y.neg THEN Sgn(x.neg, BAdd(x.mag, y.mag))
  ELSE IF BLess(x.mag, y.mag) THEN Sgn(y.neg, BSub(y.mag, x.mag))
  ELSE Sgn(x.neg, BSub(x.mag, y.mag))
SSub(x, y) == SAdd(x, SNeg(y))
SMul(x, y) == Sgn(x.neg # y.neg, BMul(x.mag, y.mag))
SLess(x, y) ==
  IF x.neg # y.neg THEN x.neg
  ELSE IF x.neg THEN BLess(y.mag, x.mag) ELSE BLess(x.mag, y.mag)
SLeq(x, y) == ~SLess(y, x)
SShl(x, s) == Sgn(x.neg, BShl(x.mag, s))
=============================================================================
