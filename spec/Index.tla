-------------------------------- MODULE Index --------------------------------
(* Combined indices and quantizers.                                          *)
EXTENDS Big, SequencesExt

\* number of tuples
Size(dims) == FoldLeft(LAMBDA n, d : n * d, 1, dims)
\* the first index varies slowest
Combine(dims, tup) == FoldLeft(LAMBDA n, k : n * dims[k] + tup[k], 0, [k \in 1..Len(dims) |-> k])
Within(dims, tup) == Len(tup) = Len(dims) /\ \A k \in 1..Len(dims) : tup[k] \in 0..(dims[k] - 1)
\* the same for sizes of up to 64 bits; an index is a number of 64 bits
BigSize(dims) == FoldLeft(LAMBDA n, d : BMul(n, BOf(d)), << 1 >>, dims)
BigCombine(dims, tup) ==
  FoldLeft(LAMBDA n, k : BAdd(BMul(n, BOf(dims[k])), BOf(tup[k])), << >>, [k \in 1..Len(dims) |-> k])
Fits(size) == BLess(size, B2(64))
\* the tuple of a combined index
RECURSIVE Split(_, _)
Split(dims, n) ==
  IF dims = << >> THEN << >>
  ELSE LET d == dims[Len(dims)]
       IN  Append(Split(SubSeq(dims, 1, Len(dims) - 1), n \div d), n % d)

(* Counts are quantized by their length in bits and the bit after the        *)
(* leading one                                                               *)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
RECURSIVE Half(_, _)
Half(n, k) == IF k = 0 THEN n ELSE Half(n \div 2, k - 1)
Bucket(n) == IF n < 2 THEN n ELSE 2 * (BitLen(n) - 2) + Half(n, BitLen(n) - 2)
=============================================================================
