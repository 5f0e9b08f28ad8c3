----------------------------- MODULE CoderTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real encoder and decoder with       *)
(* RangeCoder (W = 31, B = 8, P = 23).                                     *)
(*                                                                         *)
(* A recorded run: k, p = the decisions given to the encoder, bytes = the  *)
(* code it wrote, dec/consumed = what the decoder made of those bytes      *)
(* (followed by unrelated bytes), cut/cdec = the decisions obtained from   *)
(* the first `cut' bytes only.  kind "foreign": bytes are arbitrary and    *)
(* k, p only say which questions the decoder was asked.  kind "bulk": a    *)
(* long run, summarised.                                                   *)
(***************************************************************************)
EXTENDS RangeCoder, TraceBase

VARIABLES tr, at, enc, dec
vars == << tr, at, enc, dec >>

T == Trace[tr]
Steps(t) == IF t.kind = "bulk" THEN 0 ELSE Len(t.k)

NoDec == [buf |-> 0, rng |-> -1, pos |-> 0, got |-> -1]

Init == /\ tr \in 1..Len(Trace)
        /\ at = 0
        /\ enc = EncInit
        /\ dec = IF Trace[tr].kind # "bulk" /\ Len(Trace[tr].bytes) >= TailLen
                 THEN DecInit(Trace[tr].bytes) @@ [got |-> -1]
                 ELSE NoDec

Next == /\ at < Steps(T)
        /\ at' = at + 1
        /\ tr' = tr
        /\ enc' = IF T.kind = "foreign" THEN enc ELSE EncStep(enc, T.k[at'], T.p[at'])
        /\ dec' = IF dec.rng < 0 THEN dec
                  ELSE LET r == DecStep(T.bytes,
                                  [buf |-> dec.buf, rng |-> dec.rng, pos |-> dec.pos],
                                  T.k[at'] >= 2, T.p[at'])
                       IN  r[2] @@ [got |-> r[1]]

Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]

Accepted == FullyConsumed(Steps)

Done == at = Steps(T)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A n \in 1..Len(a) : a[n] = b[n]
Whole(t) == t.kind \notin {"bulk", "foreign"}

-----------------------------------------------------------------------------
(* C01: nothing is lost and nothing but the code is touched.                *)

LosslessStep == (Whole(T) /\ at > 0) => (at <= Len(T.dec) /\ T.dec[at] = T.k[at])

LosslessEnd ==
  (at = 0 /\ T.kind # "foreign") =>
     /\ T.err = ""
     /\ IF T.kind = "bulk"
        THEN T.wrong = -1 /\ T.decoded = T.n /\ T.consumed = T.len
        ELSE /\ Len(T.dec) = Len(T.k)
             /\ T.consumed = Len(T.bytes)
             \* with bytes missing the decoder delivers a proper prefix, then stops
             /\ T.cut >= 0 => /\ IsPrefixOf(T.cdec, T.k)
                              /\ Len(T.cdec) < Len(T.k)

-----------------------------------------------------------------------------
(* C02: the code is the exact position of the interval.                     *)

ExactCode ==
  (Whole(T) /\ Done) => /\ T.err = ""
                        /\ T.bytes = Stream(enc)
                        /\ Len(T.bytes) = TailLen + Len(enc.out)

ExactDecoding ==
  (T.kind # "bulk" /\ at > 0 /\ T.err = "") =>
     (dec.rng >= 0 /\ at <= Len(T.dec) /\ T.dec[at] = dec.got)
ExactReading ==
  (T.kind # "bulk" /\ Done) =>
     (T.err = "" /\ dec.pos = T.consumed)

\* four bytes plus one per renormalisation, and nothing else
ExactLength == T.kind = "bulk" => (T.err = "" /\ T.len = TailLen + T.shifts)
=============================================================================
