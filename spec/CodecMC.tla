------------------------------- MODULE CodecMC ------------------------------
(***************************************************************************)
(* Compression by prediction: an encoder asks a predictor for a probability *)
(* before every bit, the decoder asks its own copy.  Whatever the predictor *)
(* is -- any function of the preceding bits -- every text comes back, and   *)
(* at every moment the code decodes to the text so far.                     *)
(* Were predictions to depend on more than the preceding bits (Leak), texts *)
(* would be lost: the property is not vacuous.                              *)
(***************************************************************************)
EXTENDS RangeCoder, TLC, FiniteSets

CONSTANTS MaxBits, Leak

VARIABLES text, table, e       \* table: what was predicted after the prefixes of the text
vars == << text, table, e >>

Probs == 1..(P2(P) - 1)
Init == text = << >> /\ table = << >> /\ e = EncInit
Next ==
  /\ Len(text) < MaxBits
  /\ \E bit \in {0, 1}, p \in Probs :
       /\ text' = Append(text, bit)
       /\ table' = Append(table, p)
       /\ e' = EncStep(e, bit, p)
Spec == Init /\ [][Next]_vars

\* the decoder's predictor: after a prefix of the text what the encoder's said;
\* a leaking one has seen something else
Predicted(prefix) ==
  IF prefix = SubSeq(text, 1, Len(prefix)) THEN
    LET p == table[Len(prefix) + 1]
    IN  IF Leak /\ Len(prefix) = 1 THEN (p % (P2(P) - 1)) + 1 ELSE p
  ELSE 1
RECURSIVE Decoded(_, _, _, _)
Decoded(s, d, prefix, n) ==
  IF Len(prefix) = n THEN << prefix, d.pos >>
  ELSE LET r == DecStep(s, d, FALSE, Predicted(prefix))
       IN  IF r[1] < 0 THEN << prefix, -1 >> ELSE Decoded(s, r[2], Append(prefix, r[1]), n)
RoundTrip == LET s == Stream(e) IN Decoded(s, DecInit(s), << >>, Len(text)) = << text, Len(s) >>
=============================================================================
