----------------------------- MODULE BytesTrace -----------------------------
(* Recorded byte caches and hashes.                                          *)
EXTENDS Fnv, TraceBase
B == INSTANCE Bytes WITH BW <- 8

VARIABLES tr, at, b
vars == << tr, at, b >>
T == Trace[tr]
Steps(t) == IF t.kind = "text" THEN 8 * Len(t.bytes) ELSE 1

BitAt(t, n) == (t.bytes[(n - 1) \div 8 + 1] \div B!Pow2(7 - ((n - 1) % 8))) % 2
Open(t, x, n) == IF n % 8 = 0 /\ n < Steps(t) THEN B!BytesStart(x) ELSE x

Init == /\ tr \in 1..Len(Trace) /\ at = 0
        /\ b = IF Trace[tr].kind = "text" THEN Open(Trace[tr], B!BytesInit, 0) ELSE << >>
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ b' = IF T.kind = "text" THEN Open(T, B!BytesPush(b, BitAt(T, at')), at') ELSE b
Spec == Init /\ [][Next]_vars
View == << tr, at >>
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""

-----------------------------------------------------------------------------
IsText == T.kind = "text"
Waiting == IsText /\ at < Steps(T)
O == T.obs[at + 1]
Done == SubSeq(T.bytes, 1, at \div 8)
Known == [n \in 1..(at % 8) |-> BitAt(T, 8 * (at \div 8) + n)]

Unfinished == Waiting => /\ O[1] = B!RegUnfinished(b)
                         /\ O[1] = B!DefUnfinished(Known)
Previous == Waiting => \A n \in 1..3 : /\ O[n + 1] = B!RegPrevious(b, n)
                                       /\ O[n + 1] = B!DefPrevious(Done, n)
Order1 == Waiting => /\ O[5] = B!RegPair(b)
                     /\ O[5] = B!DefPair(Done, Known)
Order2 == Waiting => O[6] = Fold16(Fnv(<< B!DefPrevious(Done, 2), B!DefPrevious(Done, 1),
                                          B!DefUnfinished(Known) >>))
Order3 == Waiting => O[7] = Fold16(Fnv(<< B!DefPrevious(Done, 3), B!DefPrevious(Done, 2),
                                          B!DefPrevious(Done, 1), B!DefUnfinished(Known) >>))
Hash == (T.kind = "fnv" /\ at = 0) =>
          LET h == Fnv(T.data)
          IN  T.h64 = h /\ T.h32 = Fold32(h) /\ T.h16 = Fold16(h)
=============================================================================
