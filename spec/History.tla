------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* The history of a text seen through contexts.                            *)
(*                                                                         *)
(* A text is a sequence of bytes of BW bits (BW = 8 in the real thing),    *)
(* most significant bit first, revealed one bit at a time; only a window   *)
(* of the last w bytes is remembered.  The order-k context of the next bit *)
(* is the string made of the last k complete bytes and of the bits of the  *)
(* current byte revealed so far.                                           *)
(*                                                                         *)
(* h = [w, mo      window size and maximal order                           *)
(*      bits       the revealed bits of the window, oldest first           *)
(*      size, j    bytes in the window (current one included), bits of it  *)
(*      nodes      what is remembered about the strings that were, inside  *)
(*                 the window, followed by a zero and by a one: their      *)
(*                 statistics s, and how often each way was taken (l, r)   *)
(*      cnt        cnt[k + 1]: how often the way that the order-k context  *)
(*                 is on had been taken when the context entered it        *)
(*      lasts]     where the contexts of orders 0, 1, .. last occurred      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS BW,                \* bits per byte
          Cap,               \* counters stop here
          NewStats(_, _),    \* NewStats(bit, n): n times the other bit, then bit
          UpdStats(_, _, _)  \* UpdStats(s, bit, extra)

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

HistInit(w, mo) == [w |-> w, mo |-> mo, bits |-> << >>, size |-> 0, j |-> BW,
                    nodes |-> << >>, cnt |-> << >>, lasts |-> << >>]

-----------------------------------------------------------------------------
(* Notions that depend on the text alone                                    *)

\* the d bits starting at byte offset s
Str(bits, s, d) == SubSeq(bits, BW * s + 1, BW * s + d)

\* do the suffixes at byte offsets a and b agree on d bits
Agree(bits, a, b, d) == Str(bits, a, d) = Str(bits, b, d)

\* where two suffixes part, or -1 if not before max or the end; a < b
RECURSIVE Parting(_, _, _, _, _)
Parting(bits, a, b, d, max) ==
  IF BW * b + d + 1 > Len(bits) \/ d > max THEN -1
  ELSE IF bits[BW * a + d + 1] # bits[BW * b + d + 1] THEN d
  ELSE Parting(bits, a, b, d + 1, max)

Offsets(bits) == 0..((Len(bits) + BW - 1) \div BW - 1)

\* all strings, of contexts up to order mo, that continue both ways in the text
Branching(bits, mo) ==
  { Str(bits, e[1], e[2]) :
      e \in { f \in { << p[1], Parting(bits, p[1], p[2], 0, BW * mo + BW - 1) >> :
                     p \in { q \in Offsets(bits) \X Offsets(bits) : q[1] < q[2] } } :
                f[2] >= 0 } }

Cur(h) == h.size - 1
Depth(h, k) == BW * k + h.j
Key(h, k) == Str(h.bits, Cur(h) - k, Depth(h, k))

\* earlier occurrences of the order-k context inside the window
Occurrences(h, k) ==
  { s \in 0..(Cur(h) - k - 1) : Agree(h.bits, s, Cur(h) - k, Depth(h, k)) }
\* the last one, or -1
RECURSIVE LastFrom(_, _, _)
LastFrom(h, k, s) ==
  IF s < 0 THEN -1
  ELSE IF Agree(h.bits, s, Cur(h) - k, Depth(h, k)) THEN s
  ELSE LastFrom(h, k, s - 1)
LastOcc(h, k) == LastFrom(h, k, Cur(h) - k - 1)

\* the last occurrences of the contexts of orders 0, 1, .. that occurred before.
\* Where a context occurred, the one of the order below did, one byte later;
\* and no later than before it grew by a bit (bounds, for each order).
RECURSIVE LastsFrom(_, _, _, _)
LastsFrom(h, bounds, found, k) ==
  IF k > h.mo \/ k >= h.size \/ k >= Len(bounds) THEN found
  ELSE LET o == LastFrom(h, k, MinOf(bounds[k + 1], IF k = 0 THEN Cur(h) - 1 ELSE found[k] - 1))
       IN  IF o < 0 THEN found ELSE LastsFrom(h, bounds, Append(found, o), k + 1)
\* by definition; h.lasts is the same
Lasts(h) == LastsFrom(h, [k \in 1..(h.mo + 1) |-> Cur(h) - 1], << >>, 0)
\* if all bytes and bits are equal
RunLasts(h) == [k \in 1..MaxOf(0, MinOf(h.mo + 1, h.size - 1)) |-> Cur(h) - k]
Active(h) == Len(Lasts(h))

\* the bit that followed the order-k context at offset s
BitAfter(h, k, s) == h.bits[BW * s + Depth(h, k) + 1]

-----------------------------------------------------------------------------
(* What is reported before each bit: for orders 0, 1, .. a node (both bits  *)
(* have been seen after it) or an edge (always the same bit).               *)

Uniform(h) == DOMAIN h.nodes = {}    \* nothing branches: all bytes are equal

Edge(dist, count, bit) == [node |-> FALSE, dist |-> dist, count |-> count, bit |-> bit]
Node(dist, s) == [node |-> TRUE, dist |-> dist, s |-> s]

Report(h, lasts, k) ==
  IF Uniform(h)
  THEN Edge(1, MinOf(Cap, h.size - k - 1), BitAfter(h, k, h.size - k - 2))
  ELSE LET o == lasts[k + 1]
           x == Key(h, k)
           d == (Cur(h) - k) - o
       IN  IF x \in DOMAIN h.nodes THEN Node(d, h.nodes[x].s)
           ELSE Edge(d, h.cnt[k + 1], BitAfter(h, k, o))

\* orders whose way was never counted are left out
Reports(h) ==
  LET lasts == h.lasts
      orders == IF Uniform(h) THEN MinOf(h.mo + 1, h.size - 1) ELSE Len(lasts)
  IN  SelectSeq(TLCEval([k \in 1..orders |-> Report(h, lasts, k - 1)]),
                LAMBDA r : r.node \/ r.count > 0)

-----------------------------------------------------------------------------
(* Transitions                                                              *)

OnlyOn(f, S) == [x \in S |-> f[x]]

\* forget the oldest byte
DropOldest(h) ==
  LET bits == SubSeq(h.bits, BW + 1, Len(h.bits))
      n == Len(bits)
      \* is x continued by bit somewhere in what remains
      Seen(x, bit) == \E s \in Offsets(bits) :
                        /\ BW * s + Len(x) < n
                        /\ bits[BW * s + Len(x) + 1] = bit
                        /\ \A i \in 1..Len(x) : bits[BW * s + i] = x[i]
      \* only strings that the dropped suffix starts with can change
      keep == { x \in DOMAIN h.nodes :
                  IsPrefix(x, h.bits) => (Seen(x, 0) /\ Seen(x, 1)) }
  IN  [h EXCEPT !.bits = bits, !.size = @ - 1, !.nodes = OnlyOn(@, keep),
                !.lasts = [k \in DOMAIN @ |-> @[k] - 1]]

\* the shortest branching string
Root(nodes) == CHOOSE x \in DOMAIN nodes : \A y \in DOMAIN nodes : Len(x) <= Len(y)

StartByte(h0) ==
  LET h1 == IF h0.size = h0.w THEN DropOldest(h0) ELSE h0
      h0s == [h1 EXCEPT !.size = @ + 1, !.j = 0]
      \* contexts grow by one order, as far as they still occur before
      h2 == [h0s EXCEPT !.lasts = IF Uniform(h0s) THEN RunLasts(h0s)
                                  ELSE LastsFrom(h0s, << h0s.size - 2 >> \o h1.lasts, << >>, 0)]
      r == h2.nodes[Root(h2.nodes)]
      old == SubSeq(h2.cnt, 1, MaxOf(0, Len(h2.lasts) - 1))
  IN  [h2 EXCEPT !.cnt = IF Uniform(h2) THEN << >>
                         ELSE << MinOf(Cap, r.l + r.r) >> \o old]

NewNode(bit, n) ==
  [s |-> NewStats(bit, n),
   l |-> IF bit = 0 THEN 1 ELSE n,
   r |-> IF bit = 0 THEN n ELSE 1]
UpdNode(x, bit, extra) ==
  [s |-> UpdStats(x.s, bit, extra),
   l |-> IF bit = 0 THEN MinOf(Cap, x.l + 1) ELSE x.l,
   r |-> IF bit = 1 THEN MinOf(Cap, x.r + 1) ELSE x.r]

\* extra[k + 1] is stored with the order-k node
NextBit(h, bit, extra) ==
  LET more == [h EXCEPT !.bits = Append(@, bit), !.j = @ + 1]
      shown == [more EXCEPT !.lasts = LastsFrom(more, h.lasts, << >>, 0)]
  IN
  IF Uniform(h)
  THEN IF h.size < 2 THEN more
       ELSE IF h.bits[h.j + 1] = bit THEN more
       ELSE \* the first difference: every order branches here
         LET top == MinOf(h.mo, h.size - 2)
             keys == { << Key(h, k), MinOf(Cap, h.size - 1 - k) >> : k \in 0..top }
         IN  [shown EXCEPT !.nodes = [x \in { e[1] : e \in keys } |->
                 NewNode(bit, (CHOOSE e \in keys : e[1] = x)[2])]]
  ELSE
  LET lasts == h.lasts
      a == Len(lasts)
      isNode == TLCEval([k \in 0..(a - 1) |-> Key(h, k) \in DOMAIN h.nodes])
      stays == TLCEval([k \in 0..(a - 1) |-> isNode[k] \/ BitAfter(h, k, lasts[k + 1]) = bit])
      changed == { k \in 0..(a - 1) : isNode[k] \/ ~stays[k] }
      new == TLCEval([x \in { Key(h, k) : k \in changed } |->
                LET k == (Len(x) - h.j) \div BW
                IN  IF isNode[k] THEN UpdNode(h.nodes[x], bit, extra[k + 1])
                    ELSE NewNode(bit, h.cnt[k + 1])])
      cnt == TLCEval([k \in 1..a |->
                IF isNode[k - 1]
                THEN LET x == h.nodes[Key(h, k - 1)] IN IF bit = 0 THEN x.l ELSE x.r
                ELSE h.cnt[k]])
      a2 == Len(shown.lasts)
  IN  [shown EXCEPT !.nodes = new @@ @, !.cnt = SubSeq(cnt, 1, a2)]
=============================================================================
