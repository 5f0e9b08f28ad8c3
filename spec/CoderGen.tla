------------------------------ MODULE CoderGen ------------------------------
(***************************************************************************)
(* Behaviours of the coder at its real size, for replay into the real      *)
(* encoder and decoder.  The next probability is chosen by looking at the  *)
(* specification's interval: extremes, a cut exactly at, just below and    *)
(* just above the next multiple of 2^31 (where a carry is decided), and    *)
(* cuts that leave very narrow or very wide intervals.                     *)
(***************************************************************************)
EXTENDS RangeCoder, TLC

CONSTANT Depth
VARIABLES e, ops

PMax == P2(P) - 1
Clamp(p) == Max2(1, Min2(PMax, p))

\* q such that cut(q) is close to x, for 0 <= x <= rng: floor(x * 2^P / rng)
RECURSIVE Search(_, _, _, _)
Search(r, x, lo, hi) ==      \* largest p in lo..hi with Scale(r, p) <= x
  IF lo >= hi THEN lo
  ELSE LET m == lo + (hi - lo + 1) \div 2
       IN  IF Scale(r, m) <= x THEN Search(r, x, m, hi) ELSE Search(r, x, lo, m - 1)

Gap(n) == (WMaxV - n.buf) + 0     \* distance to the boundary, minus one
Straddles(n) == n.rng - 1 > Gap(n)
Choices ==
  LET n == EncNorm(e)
      c == IF Straddles(n) THEN Search(n.rng, Gap(n), 1, PMax) ELSE PMax \div 2
      near == IF Straddles(n) THEN {c - 1, c, c + 1, c + 2} ELSE {}
      in == IF Straddles(n) THEN {c - (c \div 16), c + (c \div 16)} ELSE {}
      narrow == { P2(P - s) : s \in {2, 5, 8, 11, 17} }
  IN  { Clamp(p) : p \in near \cup in \cup narrow \cup {1, 2, PMax, PMax - 1, PMax - 300, 4194304, 5592405} }

Init == e = EncInit /\ ops = << >>
Next == \E p \in Choices, k \in 0..3 :
          /\ k >= 2 => p = 1
          /\ e' = EncStep(e, k, p)
          /\ ops' = Append(ops, << k, p >>)
Spec == Init /\ [][Next]_<< e, ops >>

RECURSIVE TextR(_, _)
TextR(s, n) == IF n = 0 THEN ""
                   ELSE TextR(s, n - 1) \o " " \o ToString(s[n][1]) \o " " \o ToString(s[n][2])
Text(s) == TextR(s, Len(s))
\* printed once per behaviour, at its last state
Emit == Len(ops) = Depth => PrintT("GEN " \o Text(ops))
=============================================================================
