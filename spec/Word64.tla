------------------------------- MODULE Word64 -------------------------------
(* Machine words of 64 bits with wrap-around, as eight bytes, the lowest     *)
(* one first.                                                                *)
EXTENDS Integers, Sequences, Bitwise

WZero64 == [n \in 1..8 |-> 0]
\* from four 16-bit groups, the highest first
W64(a, b, c, d) == << d % 256, d \div 256, c % 256, c \div 256,
                      b % 256, b \div 256, a % 256, a \div 256 >>
\* from a number below 2^31
WSmall(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0 >>

WXor(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4],
                 x[5] ^^ y[5], x[6] ^^ y[6], x[7] ^^ y[7], x[8] ^^ y[8] >>
WAnd64(x, y) == << x[1] & y[1], x[2] & y[2], x[3] & y[3], x[4] & y[4],
                   x[5] & y[5], x[6] & y[6], x[7] & y[7], x[8] & y[8] >>

\* carry propagation over limbs that may exceed a byte
RECURSIVE WCarry(_, _, _, _)
WCarry(x, k, c, acc) ==
  IF k > 8 THEN acc
  ELSE LET v == x[k] + c IN WCarry(x, k + 1, v \div 256, Append(acc, v % 256))
WNorm64(x) == WCarry(x, 1, 0, << >>)
WPlus(x, y) == WNorm64([n \in 1..8 |-> x[n] + y[n]])
\* subtraction: division rounds down, so borrows are negative carries
WMinus(x, y) == WNorm64([n \in 1..8 |-> x[n] - y[n]])
WTimes(x, y) ==
  WNorm64(<< x[1]*y[1],
             x[1]*y[2] + x[2]*y[1],
             x[1]*y[3] + x[2]*y[2] + x[3]*y[1],
             x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1],
             x[1]*y[5] + x[2]*y[4] + x[3]*y[3] + x[4]*y[2] + x[5]*y[1],
             x[1]*y[6] + x[2]*y[5] + x[3]*y[4] + x[4]*y[3] + x[5]*y[2] + x[6]*y[1],
             x[1]*y[7] + x[2]*y[6] + x[3]*y[5] + x[4]*y[4] + x[5]*y[3] + x[6]*y[2] + x[7]*y[1],
             x[1]*y[8] + x[2]*y[7] + x[3]*y[6] + x[4]*y[5] + x[5]*y[4] + x[6]*y[3] + x[7]*y[2]
               + x[8]*y[1] >>)

WP2(n) == << 1, 2, 4, 8, 16, 32, 64, 128, 256 >>[n + 1]
\* shifts by n bits; vacated bits are zero
WShr64(x, n) ==
  LET q == n \div 8
      r == n % 8
      Byte(k) == IF k > 8 THEN 0 ELSE x[k]
  IN  [k \in 1..8 |-> (Byte(k + q) \div WP2(r)) + (Byte(k + q + 1) % WP2(r)) * WP2(8 - r)]
WShl64(x, n) ==
  LET q == n \div 8
      r == n % 8
      Byte(k) == IF k < 1 THEN 0 ELSE x[k]
  IN  [k \in 1..8 |-> ((Byte(k - q) * WP2(r)) % 256) + (Byte(k - q - 1) \div WP2(8 - r))]
=============================================================================
