----------------------------- MODULE HistoryMC ------------------------------
(***************************************************************************)
(* Exhaustive check of the incremental history (what the tree maintains)   *)
(* against definitions over the text, for tiny bytes, windows and orders.  *)
(***************************************************************************)
EXTENDS History

CONSTANTS MaxW, MaxMo, MaxBytes

VARIABLES h, past      \* past: bits that have left the window
vars == << h, past >>

\* statistics here are the whole evidence: n times the other bit, then these
MCNew(bit, n) == << n, << bit >> >>
MCUpd(s, bit, extra) == << s[1], Append(s[2], bit) >>

Init == \E w \in 1..MaxW, mo \in 0..MaxMo :
          h = StartByte(HistInit(w, mo)) /\ past = << >>

NoExtra == [n \in 1..(MaxMo + 1) |-> 0]
Next == /\ Len(past) + Len(h.bits) < BW * MaxBytes
        /\ \E bit \in {0, 1} :
             LET g == NextBit(h, bit, NoExtra)
             IN  IF g.j < BW THEN h' = g /\ past' = past
                 ELSE /\ h' = StartByte(g)
                      /\ past' = IF g.size = g.w THEN past \o SubSeq(g.bits, 1, BW) ELSE past
Spec == Init /\ [][Next]_vars

\* exactly the branching strings of the window have nodes
NodesAreBranching ==
  /\ DOMAIN h.nodes = Branching(h.bits, h.mo)
  /\ Cardinality(DOMAIN h.nodes) <= MaxOf(0, h.size - 1)

UniformText == Uniform(h) => \A s \in 0..(h.size - 2) : Agree(h.bits, 0, s, BW)
Counted == Uniform(h) \/ Len(h.cnt) = Active(h)

\* node contexts come first, then edges
NodesFirst == LET r == Reports(h)
              IN  \A a, b \in 1..Len(r) : (a < b /\ r[b].node) => r[a].node

\* orders, distances, kinds and repeated bits come from the window alone
WindowOnly ==
  \A k \in 0..(Len(Reports(h)) - 1) :
    LET r == Reports(h)[k + 1]
        occ == Occurrences(h, k)
        bits == { BitAfter(h, k, s) : s \in occ }
    IN  /\ occ # {}
        /\ ~Uniform(h) => \A s \in occ : s <= (Cur(h) - k) - r.dist
        /\ (Cur(h) - k) - r.dist \in occ
        /\ r.node = (Cardinality(bits) = 2)
        /\ ~r.node => bits = {r.bit}
AllOrders == Len(Reports(h)) = Active(h)
LastsAreLast ==
  /\ h.lasts = Lasts(h)
  /\ \A k \in 0..MinOf(h.mo, Cur(h)) : IF k < Active(h) THEN Lasts(h)[k + 1] = LastOcc(h, k) ELSE LastOcc(h, k) = -1
CountsPositive == \A n \in 1..Len(h.cnt) : h.cnt[n] > 0

\* while nothing has been forgotten, counts and evidence are those of the text
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN << >>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                   IN  << m >> \o InOrder(S \ {m})
RECURSIVE RunLen(_, _)
RunLen(q, n) == IF n < Len(q) /\ q[n + 1] = q[1] THEN RunLen(q, n + 1) ELSE n
Definition ==
  past = << >> =>
    \A k \in 0..(Len(Reports(h)) - 1) :
      LET r == Reports(h)[k + 1]
          o == InOrder(Occurrences(h, k))
          q == [n \in 1..Len(o) |-> BitAfter(h, k, o[n])]
          run == RunLen(q, 1)
      IN  IF r.node THEN r.s = << MinOf(Cap, run), SubSeq(q, run + 1, Len(q)) >>
          ELSE r.count = MinOf(Cap, Len(q))

\* statistics of a string survive as long as it keeps branching
Persistence ==
  [][\A x \in DOMAIN h.nodes \cap DOMAIN h'.nodes :
        /\ h'.nodes[x].s[1] = h.nodes[x].s[1]
        /\ IsPrefix(h.nodes[x].s[2], h'.nodes[x].s[2])]_vars
=============================================================================
