-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* What the predictor sees of the most recent bytes.  Two descriptions: a   *)
(* register of the last four bytes that is shifted and filled bit by bit,   *)
(* and the definition over the text.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT BW                    \* bits in a byte

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* value of a sequence of bits, the most significant first
RECURSIVE BitsVal(_)
BitsVal(s) == IF s = << >> THEN 0 ELSE 2 * BitsVal(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]

-----------------------------------------------------------------------------
(* The register: bytes[1] is the unfinished one, `left' its missing bits     *)

BytesInit == [left |-> 0, open |-> FALSE, bytes |-> << 0, 0, 0, 0 >>]
CanStart(b) == ~b.open
CanPush(b) == b.open
BytesStart(b) == [left |-> BW, open |-> TRUE,
                  bytes |-> << 0, b.bytes[1], b.bytes[2], b.bytes[3] >>]
BytesPush(b, bit) ==
  [left |-> b.left - 1, open |-> b.left > 1,
   bytes |-> [b.bytes EXCEPT ![1] = @ + bit * Pow2(b.left - 1)]]

RegUnfinished(b) == Pow2(BW - b.left) + (b.bytes[1] \div Pow2(b.left))
RegPrevious(b, n) == b.bytes[n + 1]
\* the previous byte and the unfinished one, with a leading mark
RegPair(b) == Pow2(2 * BW - b.left) +
              ((b.bytes[2] * Pow2(BW) + b.bytes[1]) \div Pow2(b.left))

-----------------------------------------------------------------------------
(* The definition: `done' are the completed bytes, `bits' those of the       *)
(* unfinished byte                                                           *)

DefUnfinished(bits) == Pow2(Len(bits)) + BitsVal(bits)
DefPrevious(done, n) == IF n > Len(done) THEN 0 ELSE done[Len(done) + 1 - n]
DefPair(done, bits) == Pow2(BW + Len(bits)) + DefPrevious(done, 1) * Pow2(Len(bits)) + BitsVal(bits)
=============================================================================
