------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What is counted while a text is predicted.                               *)
(*                                                                         *)
(* Each bit has a cost, a number of contexts (in order, from order 0), how  *)
(* many of these are unary (always followed by the same bit), and how often *)
(* the longest one has occurred.  a = [                                     *)
(*   bytes, bits    complete bytes and bits so far                          *)
(*   ctx            contexts, over all bits                                 *)
(*   cost           of all bits                                             *)
(*   cur, low       cost and value of the unfinished byte                   *)
(*   types          by longest order and number of unary contexts, each at  *)
(*                  most 4: bits, cost, occurrences                         *)
(*   syms ]         by value of the byte: how many, cost                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Wide

LOCAL Least(x, y) == IF x < y THEN x ELSE y

TypeOf(contexts, unary) == 5 * Least(4, contexts - 1) + Least(4, unary) + 1
ReportInit == [bytes |-> 0, bits |-> 0, ctx |-> 0, cost |-> 0, cur |-> 0, low |-> 0,
               types |-> [n \in 1..25 |-> << 0, 0, 0 >>], syms |-> << >>]

\* a symbol's count and cost
Sym(a, s) == IF s \in DOMAIN a.syms THEN a.syms[s] ELSE << 0, 0 >>

\* w = bits per byte
ReportBit(a, w, bit, cost, contexts, unary, occurrences) ==
  LET t == TypeOf(contexts, unary)
      low == 2 * a.low + bit
      cur == a.cur + cost
      last == (a.bits + 1) % w = 0
      old == Sym(a, low)
  IN  [a EXCEPT !.bits = @ + 1, !.ctx = @ + contexts, !.cost = @ + cost,
                !.bytes = IF last THEN @ + 1 ELSE @,
                !.cur = IF last THEN 0 ELSE cur,
                !.low = IF last THEN 0 ELSE low,
                !.types = IF contexts = 0 THEN @
                          ELSE [@ EXCEPT ![t] = << @[1] + 1, @[2] + cost, @[3] + occurrences >>],
                !.syms = IF last THEN (low :> << old[1] + 1, old[2] + cur >>) @@ @ ELSE @]

(* The same in blocks of whole bytes, with wide sums, for large texts.  A    *)
(* block is << bits, kinds, symbols >>: kinds of bits by their contexts, all  *)
(* and unary (<< contexts, unary, bits, cost, occurrences >>), symbols as     *)
(* << value, how many, cost >>.                                               *)
WideInit == [bytes |-> 0, bits |-> 0, ctx |-> WZero, cost |-> WZero,
             types |-> [n \in 1..25 |-> << 0, WZero, WZero >>],
             syms |-> [s \in 0..255 |-> << 0, WZero >>]]
WideBlock(a, w, b) ==
  LET kinds == FoldLeft(
        LAMBDA x, k :
          [x EXCEPT !.ctx = WAdd(@, WMul(k[1], k[3])), !.cost = WAdd(@, WOf(k[4])),
                    !.types = IF k[1] = 0 THEN @
                              ELSE [@ EXCEPT ![TypeOf(k[1], k[2])] =
                                      << @[1] + k[3], WAdd(@[2], WOf(k[4])), WAdd(@[3], WOf(k[5])) >>]],
        [ctx |-> a.ctx, cost |-> a.cost, types |-> a.types], b[2])
      syms == FoldLeft(LAMBDA x, k : [x EXCEPT ![k[1]] = << @[1] + k[2], WAdd(@[2], WOf(k[3])) >>], a.syms, b[3])
  IN  [bytes |-> a.bytes + b[1] \div w, bits |-> a.bits + b[1], ctx |-> kinds.ctx, cost |-> kinds.cost,
       types |-> kinds.types, syms |-> syms]

=============================================================================
