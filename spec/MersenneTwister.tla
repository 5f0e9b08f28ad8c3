-------------------------- MODULE MersenneTwister --------------------------
(***************************************************************************)
(* MT19937-64 (Matsumoto, Nishimura) as a recurrence over 64-bit words:     *)
(*   x[k+312] = x[k+156] xor twist(upper 33 bits of x[k], lower 31 of x[k+1])*)
(* with the published tempering and the two published initialisations.      *)
(***************************************************************************)
EXTENDS Word64, SequencesExt

NN == 312
MM == 156
MatrixA == W64(46338, 28506, 43366, 6633)         \* 0xB5026F5AA96619E9
UM == << 0, 0, 0, 128, 255, 255, 255, 255 >>
LM == << 255, 255, 255, 127, 0, 0, 0, 0 >>
One64 == WSmall(1)

Xor62(x) == WXor(x, WShr64(x, 62))
F1 == W64(22609, 62509, 19605, 32557)              \* 6364136223846793005
F2 == W64(13981, 59919, 12709, 16261)               \* 3935559000370003845
F3 == W64(10171, 12006, 34736, 45309)               \* 2862933555777941757

ScalarState(seed) ==
  FoldLeft(LAMBDA s, k : Append(s, WPlus(WTimes(F1, Xor62(s[k])), WSmall(k))), << seed >>,
           [k \in 1..(NN - 1) |-> k])

\* one step of the array initialisation: position i (0-based) of s is replaced
\* by (s[i] xor (mixed s[i-1]) * f) + add; then the position advances, and
\* when it passes the end the last word is copied to the front
Absorb(acc, f, add) ==
  LET s == acc.s
      i == acc.i
      v == WPlus(WXor(s[i + 1], WTimes(Xor62(s[i]), f)), add)
      s1 == [s EXCEPT ![i + 1] = v]
  IN  IF i + 1 >= NN THEN [s |-> [s1 EXCEPT ![1] = s1[NN]], i |-> 1]
      ELSE [s |-> s1, i |-> i + 1]
Scalar0 == ScalarState(WSmall(19650218))
VectorState(key) ==
  LET n == IF Len(key) > NN THEN Len(key) ELSE NN
      a == FoldLeft(LAMBDA acc, q : Absorb(acc, F2, WPlus(key[(q % Len(key)) + 1], WSmall(q % Len(key)))),
                    [s |-> Scalar0, i |-> 1], [q \in 1..n |-> q - 1])
      z == FoldLeft(LAMBDA acc, q : Absorb(acc, F3, WMinus(WZero64, WSmall(acc.i))),
                    a, [q \in 1..(NN - 1) |-> q])
  IN  [z.s EXCEPT ![1] = << 0, 0, 0, 0, 0, 0, 0, 128 >>]

Twist(s) ==
  LET x == WXor(WAnd64(s[1], UM), WAnd64(s[2], LM))
      y == WXor(s[MM + 1], WShr64(x, 1))
  IN  IF x[1] % 2 = 1 THEN WXor(y, MatrixA) ELSE y
\* the word that leaves next, and the state after it
MTNext(s) == Append(Tail(s), Twist(s))

M5 == << 85, 85, 85, 85, 85, 85, 85, 85 >>
M17 == W64(29142, 32767, 60838, 0)             \* 0x71D67FFFEDA60000
M37 == W64(65527, 61152, 0, 0)                     \* 0xFFF7EEE000000000
Temper(w) ==
  LET a == WXor(w, WAnd64(WShr64(w, 29), M5))
      b == WXor(a, WAnd64(WShl64(a, 17), M17))
      c == WXor(b, WAnd64(WShl64(b, 37), M37))
  IN  WXor(c, WShr64(c, 43))
MTOutput(s) == Temper(s[NN])
=============================================================================
