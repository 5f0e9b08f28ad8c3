----------------------------- MODULE FixedTrace -----------------------------
(* Recorded results of the fixed point functions against Fixed.             *)
EXTENDS Fixed, TraceBase

VARIABLES tr, at
vars == << tr, at >>
T == Trace[tr]
Steps(t) == Len(t.s)
Init == tr \in 1..Len(Trace) /\ at = 0
Next == at < Steps(T) /\ at' = at + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)

N(a) == Sgn(a[1] = 1, Tail(a))
Expected(s) ==
  LET x == N(s.x)
      y == N(s.y)
      sg == s.sg = 1
  IN  CASE s.op = "down" -> Ok(Down(x, s.bits, sg, s.n))
        [] s.op = "div" -> Ok(Div(x, s.bits, sg, y))
        [] s.op = "conv" -> Conv(x, s.bits, sg, s.f, s.rbits, s.fr)
        [] s.op = "mul" -> Mul(x, y, sg, s.f, s.f2, s.rbits, s.fr)
        [] s.op = "add" -> Add(x, y, s.bits, sg)
        [] s.op = "sub" -> Sub(x, y, s.bits, sg)
        [] s.op = "trunc" -> Ok(Floor(x, s.f))
        [] s.op = "flip" -> Flip(x, s.bits)
        [] s.op = "neg" -> Ok(SNeg(x))
        [] s.op = "sign" -> IF x.neg \/ ~Fits(x, s.bits, TRUE) THEN Refused ELSE Ok(x)
        [] s.op = "clamp" -> Ok(Clamp(x, y.mag, s.f))
        [] s.op = "limit" -> Limited(x, y.mag, s.f)
        [] s.op = "interval" -> Ok(Interval(x, y.mag, s.f, s.n))
        [] s.op = "intervals" -> Ok(Intervals(y.mag, s.n))
        [] s.op \in {"make", "ulp"} -> Ok(x)
        [] s.op = "misnamed" -> Refused
        [] s.op = "fromfloat" -> Ok(FromFloat(x, s.n, s.bits, sg, s.f))
        [] s.op = "stops" -> Ok(SAdd(Intervals(y.mag, s.n), SOf(1)))

\* a float of fewer digits may be that of the number or of the longer float
FloatOf(s) ==
  LET x == N(s.x)
      is(n) == SameFloat(N(s.r).mag, s.n, n, s.f)
      long == RoundEven(x.mag, 53)
  IN  /\ s.ok = 1
      /\ (N(s.r).neg = x.neg)
      /\ (is(RoundEven(x.mag, s.f2)) \/ is(RoundEven(long, s.f2)))
Agrees(s) ==
  IF s.op = "tofloat" THEN FloatOf(s) ELSE
  LET d == Expected(s)
      e == IF d.ok THEN Limit(d.x, s.lim, s.fr) ELSE d
  IN  IF e.ok THEN s.ok = 1 /\ N(s.r) = e.x ELSE s.ok = 0
Exact == at > 0 => Agrees(T.s[at])
=============================================================================
