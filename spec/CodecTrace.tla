------------------------------ MODULE CodecTrace ----------------------------
(***************************************************************************)
(* Recorded compressions by the real predictor, encoder and decoder.        *)
(*                                                                         *)
(* text   bytes; pred: the predictions while compressing; again: while      *)
(*        another predictor worked on something else in between; elsewhere: *)
(*        in another process; code; read: how many bytes of it the decoder  *)
(*        took; dpred, dbytes: what the decoder predicted and decoded;      *)
(*        base: a run whose text may share a prefix with this one           *)
(* bulk   a long text, the predictions as digests of blocks                 *)
(***************************************************************************)
EXTENDS RangeCoder, TraceBase

VARIABLES tr, at, enc
vars == << tr, at, enc >>

T == Trace[tr]
Steps(t) == IF t.kind = "text" THEN Len(t.pred) ELSE 0
BitsIn(t) == 8 * Len(t.bytes)
BitAt(t, n) == (t.bytes[(n - 1) \div 8 + 1] \div P2(7 - ((n - 1) % 8))) % 2

Init == tr \in 1..Len(Trace) /\ at = 0 /\ enc = EncInit
Next == /\ at < Steps(T)
        /\ at' = at + 1
        /\ tr' = tr
        /\ enc' = EncStep(enc, BitAt(T, at'), T.pred[at'])
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)

Top == 8388608                              \* certainty
Whole == T.kind = "text"
NoPanic == T.err = ""
Long == (~Whole /\ at = 0) =>
  /\ T.count = 8 * T.len
  /\ T.min > 0 /\ T.max < Top
  /\ Len(T.pred) = (T.count + T.block - 1) \div T.block
  /\ T.dpred = T.pred
  /\ T.wrong = -1 /\ T.decoded = T.len /\ T.read = T.code

\* a prediction for every bit, in every run, and never certain
Valid == Whole => /\ Len(T.pred) = BitsIn(T)
                  /\ at > 0 => T.pred[at] > 0 /\ T.pred[at] < Top
\* the same in every run
Same(q) == Len(q) = BitsIn(T) /\ (at > 0 => q[at] = T.pred[at])
Deterministic == Whole => Same(T.again) /\ Same(T.elsewhere) /\ Same(T.dpred)
\* and after every prefix in common with another text
RECURSIVE Common(_, _, _)
Common(a, b, n) ==
  IF n < BitsIn(a) /\ n < BitsIn(b) /\ BitAt(a, n + 1) = BitAt(b, n + 1) THEN Common(a, b, n + 1) ELSE n
Causal == (Whole /\ at = 0 /\ T.base > 0) =>
            LET o == Trace[T.base]
            IN  /\ o.w = T.w /\ o.mo = T.mo
                /\ \A n \in 1..Min2(Common(T, o, 0) + 1, Min2(Len(T.pred), Len(o.pred))) : T.pred[n] = o.pred[n]
\* the code is the interval code of the text, and gives the text back
RoundTrip == (Whole /\ at = Steps(T)) => /\ T.code = Stream(enc)
                                         /\ T.dbytes = T.bytes
                                         /\ T.read = Len(T.code)
=============================================================================
