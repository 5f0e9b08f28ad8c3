---------------------------- MODULE ListingTrace ----------------------------
(***************************************************************************)
(* Listings printed by print_histories.                                     *)
(*                                                                         *)
(* For each source, printed byte and bit of it, the last seven bits that    *)
(* followed every context, as one number: a leading one and then these      *)
(* bits, oldest first.                                                      *)
(***************************************************************************)
EXTENDS Stats, TraceBase

BW == 8
Cap == 1000
Order == 63
Listed == 1234                     \* at most so many bytes
NewStats(bit, n) == FreshStats(bit, Min2(n, Cap))
UpdStats(s, bit, extra) == NextStats(s, bit)
H == INSTANCE History

VARIABLES tr, at, hh
vars == << tr, at, hh >>
T == Trace[tr]
Wanted(t) == Min2(Listed, t.len)
Steps(t) == IF t.rep = << >> THEN 0 ELSE Len(t.rep[1])
BitAt(t, n) == (t.bytes[(n - 1) \div 8 + 1] \div P2(7 - ((n - 1) % 8))) % 2
Begin(t, h, n) == IF n % 8 = 0 /\ n < 8 * Len(t.bytes) THEN H!StartByte(h) ELSE h
Init == /\ tr \in 1..Len(Trace)
        /\ at = 0
        /\ hh = Begin(Trace[tr], H!HistInit(Max2(1, Trace[tr].len), Order), 0)
Next == /\ at < Steps(T)
        /\ at' = at + 1
        /\ tr' = tr
        /\ hh' = Begin(T, H!NextBit(hh, BitAt(T, at'), [n \in 1..(Order + 1) |-> 0]), at')
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)

Value(s) == FoldLeft(LAMBDA n, b : 2 * n + b, 1, s)
LastSeven(s) == Value(IF Len(s) > 7 THEN SubSeq(s, Len(s) - 6, Len(s)) ELSE s)
Shown(r) == LastSeven(IF r.node THEN r.s.recent ELSE RecentRun(r.bit, r.count))

NoPanic == T.err = ""
AllBytes == at = 0 =>
            /\ Len(T.bytes) = Wanted(T) /\ Len(T.rep) = 3 /\ Len(T.seen) = 3
            /\ \A n \in 1..3 : T.seen[n] = T.bytes /\ Len(T.rep[n]) = 8 * Wanted(T)
Listing == at < Steps(T) =>
  LET e == H!Reports(hh)
      shown == [n \in 1..Len(e) |-> Shown(e[n])]
  IN  \A n \in 1..3 : T.rep[n][at + 1] = shown
=============================================================================
