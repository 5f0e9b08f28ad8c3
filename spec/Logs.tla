-------------------------------- MODULE Logs --------------------------------
(***************************************************************************)
(* Binary logarithms by repeated squaring.                                  *)
(***************************************************************************)
EXTENDS Wide, SequencesExt

(* Logarithms have 11 fractional bits.  One mantissa in 2^11 steps selects   *)
(* a table entry: round(2^11 * log2(1 + k/2^11)).  The bits of a logarithm   *)
(* come from repeated squaring of a number in [1/2, 1), with 31 bits.        *)
LogBits == 11
LogOne == 2048

\* round(a * a / 2^31): a = h * 2^16 + l, the rest in steps of 2^16
SquareRound(a) ==
  LET h == a \div 65536
      l == a % 65536
      hl == h * l
      l1 == l \div 256
      l0 == l % 256
      ll == l1 * l1 + (512 * l1 * l0 + l0 * l0) \div 65536        \* floor(l * l / 2^16)
  IN  2 * h * h + hl \div 16384 + (2 * (hl % 16384) + ll + 16384) \div 32768
RECURSIVE LogDigits(_, _, _)
LogDigits(a, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET s == SquareRound(a)
       IN  IF s < 1073741824 THEN LogDigits(2 * s, n - 1, 2 * acc)
           ELSE LogDigits(s, n - 1, 2 * acc + 1)
\* 25 digits are enough to round to 11
LogEntry(k) == RoundI(LogDigits((LogOne + k) * 524288, 25, 0), 14)
LogTab == FoldLeft(LAMBDA acc, k : Append(acc, LogEntry(k)), << >>, [k \in 1..LogOne |-> k - 1])

\* length of a natural number in bits
RECURSIVE BitLenI(_)
BitLenI(n) == IF n = 0 THEN 0 ELSE 1 + BitLenI(n \div 2)
=============================================================================
