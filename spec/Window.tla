------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* A bounded window over a byte stream: bytes enter at the cursor, leave   *)
(* at the start.  Positions are named by ring indices: the byte at offset  *)
(* k from the start has index (start + k) mod max.                         *)
(*                                                                         *)
(* win = [max, start, bytes]   bytes: the content, oldest first            *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT BW       \* bits per byte

WinInit(max, shift) == [max |-> max, start |-> shift, bytes |-> << >>]
Size(w) == Len(w.bytes)
At(w, k) == (w.start + k) % w.max           \* ring index of an offset
Cursor(w) == At(w, Size(w) - 1)             \* if not empty
Off(w, i) == (i - w.start) % w.max          \* offset of a ring index

CanGrow(w) == Size(w) < w.max
CanShrink(w) == Size(w) > 0
Grow(w) == [w EXCEPT !.bytes = Append(@, 0)]
Shrink(w) == [w EXCEPT !.bytes = Tail(@), !.start = (@ + 1) % w.max]
SetByte(w, v) == [w EXCEPT !.bytes[Size(w)] = v]

\* many bytes at once: each that finds the window full pushes the oldest out
Drop(w, n) == [w EXCEPT !.bytes = SubSeq(@, n + 1, Len(@)), !.start = (@ + n) % w.max]
Block(w, new) ==
  LET all == w.bytes \o new
      d == IF Len(all) > w.max THEN Len(all) - w.max ELSE 0
  IN  [w EXCEPT !.bytes = SubSeq(all, d + 1, Len(all)), !.start = (@ + d) % w.max]

Pow(n) == 2 ^ n
BitOf(v, j) == (v \div Pow(j)) % 2
WithBit(v, j, b) == v + (b - BitOf(v, j)) * Pow(j)
SetBit(w, j, b) == SetByte(w, WithBit(w.bytes[Size(w)], j, b))

\* do the strings at offsets a and b agree on full bytes and on the bits above
\* bit j of the next byte
Equal(w, a, b, full, j) ==
  /\ \A k \in 1..full : w.bytes[a + k] = w.bytes[b + k]
  /\ \A n \in (j + 1)..(BW - 1) :
       BitOf(w.bytes[a + full + 1], n) = BitOf(w.bytes[b + full + 1], n)
\* where that is a question about the window
Askable(w, a, b, full, j) ==
  LET m == (IF a > b THEN a ELSE b) + full
  IN  IF j = BW - 1 THEN m <= Size(w) ELSE m < Size(w)
Suffixes(w) == [k \in 1..Size(w) |-> At(w, k - 1)]
=============================================================================
