----------------------------- MODULE IndexTrace -----------------------------
(* Recorded selectors and quantizers.  "all": every tuple in lexicographic   *)
(* order.  "some": chosen tuples, several in a row with one selector.        *)
EXTENDS Index, TraceBase

VARIABLES tr, at
vars == << tr, at >>
T == Trace[tr]
Steps(t) == Len(t.out)
Init == tr \in 1..Len(Trace) /\ at = 0
Next == at < Steps(T) /\ at' = at + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

Sizes == T.kind \in {"all", "some"} => T.size = Size(T.dims)
\* sizes of more than 64 bits are refused, others are exact
HugeSizes == (T.kind = "huge" /\ at = 0) =>
  LET size == BigSize(T.dims) IN
  IF Fits(size) THEN T.ok = 1 /\ T.size = size /\ Len(T.out) = Len(T.tuples) ELSE T.ok = 0
AllOfThem == T.kind = "all" => Len(T.out) = Size(T.dims)
Combined == at > 0 =>
  CASE T.kind = "all" -> T.out[at] = at - 1
    [] T.kind = "some" -> T.out[at] = Combine(T.dims, T.tuples[at])
    [] T.kind = "huge" -> T.out[at] = BigCombine(T.dims, T.tuples[at])
    [] T.kind = "misuse" -> T.out[at] = IF Within(T.dims, T.tuples[at]) THEN Combine(T.dims, T.tuples[at]) ELSE -1
    [] OTHER -> TRUE
\* quantized counts from 0 on
Quantized == (T.kind = "count" /\ at > 0) =>
  /\ T.out[at] = Bucket(T.base + at - 1)
  /\ T.out[at] <= T.max
QuantizedShape == (T.kind = "count" /\ at > 1) => T.out[at] \in {T.out[at - 1], T.out[at - 1] + 1}
QuantizedEnds == T.kind = "count" => /\ (T.base = 0 => T.out[1] = 0)
                                     /\ (T.base + Len(T.out) = 65536 => T.out[Len(T.out)] = T.max)
=============================================================================
