----------------------------- MODULE PredictorMC ----------------------------
(***************************************************************************)
(* Every short text of tiny bytes through the whole predictor: predictions   *)
(* are never certain, every part that was asked learns exactly once and no   *)
(* other, and everything stays within its bounds, with and without sliding.  *)
(***************************************************************************)
EXTENDS Predictor

CONSTANTS MaxW, MaxMo, MaxBits

VARIABLES vM, vG, vN
vars == << vM, vG, vN >>

Init == \E w \in 1..MaxW, mo \in 0..MaxMo :
          /\ vM = Open(Start(w, mo))
          /\ vG = Guess(vM)
          /\ vN = 0
Next == /\ vN < MaxBits
        /\ vN' = vN + 1
        /\ \E bit \in {0, 1} :
             /\ vM' = LET m == LearnBit(vM, vG, bit) IN IF m.bits = << >> THEN Open(m) ELSE m
             /\ vG' = Guess(vM')
Spec == Init /\ [][Next]_vars

Valid == vG.final > 0 /\ vG.final < FinalOne
InDomain == /\ vG.sq > 0 /\ vG.sq <= M31 /\ Abs(vG.st) <= StLimit
            /\ \A k \in 1..Len(vG.chain) :
                 CanLearn(vG.chain[k].x, 0, vG.chain[k].sq, IF vG.chain[k].node THEN NodeMax ELSE EdgeMax)
\* nodes are at the start of the chain
NodesFirst == \A a, b \in 1..Len(vG.chain) : a < b /\ vG.chain[b].node => vG.chain[a].node
Bounded ==
  /\ \A f \in {vM.em, vM.nm} : \A k \in 1..Len(f) : \A i \in DOMAIN f[k] :
       \A n \in 1..Len(f[k][i].w) : Abs(f[k][i].w[n]) <= WBound
  /\ \A f \in {vM.ee, vM.ne} : \A k \in 1..Len(f) : \A i \in DOMAIN f[k] :
       f[k][i].p > 0 /\ f[k][i].p < EstOne
  /\ \A n \in 1..4 : \A i \in DOMAIN vM.maps[n] : \A j \in 1..Len(vM.maps[n][i]) :
       vM.maps[n][i][j] > 0 /\ vM.maps[n][i][j] <= M31
  /\ \A x \in DOMAIN vM.h.nodes : \A n \in 1..2 : CanTrack(vM.h.nodes[x].s.cost[n])

\* learning: the mixers and probabilities of the contexts of the chain, once each
Changed(f, g) == { << k, i >> \in { << a, b >> : a \in 1..Len(f), b \in UNION { DOMAIN g[c] : c \in 1..Len(g) } } :
                     i \in DOMAIN g[k] /\ (i \notin DOMAIN f[k] \/ f[k][i] # g[k][i]) }
Asked(g, node, at(_)) == { << k, at(g.chain[k]) >> : k \in { n \in 1..Len(g.chain) : g.chain[n].node = node } }
LearnsOnce ==
  [][ /\ Changed(vM.em, vM'.em) = Asked(vG, FALSE, LAMBDA c : c.mi)
      /\ Changed(vM.nm, vM'.nm) = Asked(vG, TRUE, LAMBDA c : c.mi)
      /\ Changed(vM.ee, vM'.ee) = Asked(vG, FALSE, LAMBDA c : c.ei)
      /\ Changed(vM.ne, vM'.ne) = Asked(vG, TRUE, LAMBDA c : c.ei)
      /\ \A k \in 1..Len(vG.chain) :
           LET c == vG.chain[k]
               n == IF c.node THEN vM'.nm[k][c.mi].idx ELSE vM'.em[k][c.mi].idx
           IN  n = c.x.idx + 1 ]_vars
=============================================================================
