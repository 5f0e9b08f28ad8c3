--------------------------- MODULE PredictorTrace ---------------------------
(***************************************************************************)
(* Recorded predictions against the whole predictor.                        *)
(*                                                                         *)
(* whole   input bytes, and for each bit the prediction (final)             *)
(* parts   the same with a chosen window size and order, the parts driven   *)
(*         one by one: also the prediction before the final refinement      *)
(*         (sq, st) and the running costs given back to the history         *)
(* chain   the same for made-up contexts (rep) and unfinished bytes         *)
(* final   the final refinement of made-up probabilities (sq, st)           *)
(* recall  random bytes (copy), then other bytes (between), then the first  *)
(*         again: the predictions of the second copy (given). Not followed  *)
(*         bit by bit: a text within the window is remembered, whatever     *)
(*         came in between, and one beyond it is not                        *)
(***************************************************************************)
EXTENDS Predictor, TraceBase

VARIABLES tr, at, vM, vG
vars == << tr, at, vM, vG >>

T == Trace[tr]
Steps(t) == Len(t.final)
BitAt(t, n) == IF t.kind = "chain" THEN t.bits[n]
               ELSE (t.bytes[(n - 1) \div 8 + 1] \div P2(7 - ((n - 1) % 8))) % 2

\* contexts that were made up
Context(o) ==
  IF o[1] = 0 THEN [node |-> FALSE, dist |-> o[2], count |-> o[3], bit |-> o[4]]
  ELSE [node |-> TRUE, dist |-> o[2],
        s |-> [est |-> [p |-> o[3] \div 512, n |-> o[4]],
               runs |-> [bit |-> o[5], last |-> o[6], opp |-> o[7], prev |-> o[8]],
               cost |-> << o[9], o[10] >>]]
Contexts(t, n) == TLCEval([k \in 1..Len(t.rep[n + 1]) |-> Context(t.rep[n + 1][k])])

\* the machine in which prediction number n + 1 is made, and that prediction
Begin(t, m, n) == IF t.kind \in {"whole", "parts"} /\ n % 8 = 0 /\ n < 8 * Len(t.bytes) THEN Open(m) ELSE m
GuessAt(t, m, n) ==
  IF n >= Len(t.final) THEN << >>
  ELSE IF t.kind = "chain"
  THEN LET c == TLCEval(Chain(m, Contexts(t, n), t.bytes[n + 1]))
       IN  [chain |-> c, sq |-> ChainSq(c), st |-> ChainSt(c), final |-> 0]
  ELSE IF t.kind = "final"
  THEN LET f == Final(m, t.sq[n + 1], t.st[n + 1])
       IN  [chain |-> << >>, index |-> f.index, looks |-> f.looks, final |-> Coded(f.out)]
  ELSE Guess(m)
Learnt(t, m, g, bit) ==
  CASE t.kind = "chain" -> LearnChain(m, g.chain, bit)
    [] t.kind = "final" -> PushBit(LearnFinal(m, g, bit), bit)
    [] OTHER -> LearnBit(m, g, bit)

Init == /\ tr \in 1..Len(Trace)
        /\ at = 0
        /\ vM = Begin(Trace[tr], Start(Trace[tr].w, Trace[tr].mo), 0)
        /\ vG = GuessAt(Trace[tr], vM, 0)
Next == /\ at < Steps(T)
        /\ at' = at + 1
        /\ tr' = tr
        /\ vM' = Begin(T, Learnt(T, vM, vG, BitAt(T, at')), at')
        /\ vG' = GuessAt(T, vM', at')
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)
NoPanic == T.err = ""
AllBits == Len(T.final) = (IF T.kind = "chain" THEN 1 ELSE 8) * Len(T.bytes)

Waiting == at < Steps(T)
Parts == Waiting /\ T.kind \in {"parts", "chain"}
\* bit number n of the second copy was thought more likely than not
Foreseen(t, n) == LET zero == ((t.copy[((n - 1) \div 8) + 1]) \div P2(7 - ((n - 1) % 8))) % 2 = 0
                  IN  IF zero THEN t.given[n] > FinalOne \div 2 ELSE t.given[n] < FinalOne \div 2
\* the first ten bytes of the second copy are left out: until then there are too few to tell where one is
Recalls == T.kind = "recall" =>
             LET n == 8 * (Len(T.copy) - 10)
                 good == Cardinality({k \in 81..8 * Len(T.copy) : Foreseen(T, k)})
             IN  /\ Len(T.given) = 8 * Len(T.copy)
                 /\ T.between + Len(T.copy) <= T.w => 100 * good >= 95 * n
                 /\ T.between > T.w => 100 * good <= 80 * n
Prediction == Waiting => T.final[at + 1] = vG.final
BeforeFinal == Parts => << T.sq[at + 1], T.st[at + 1] >> = << vG.sq, vG.st >>
Costs == Parts => T.costs[at + 1] = CostsOf(vG.chain, BitAt(T, at + 1))
\* a mixer that is asked to learn may
MayLearn == Waiting => \A k \in 1..Len(vG.chain) :
                         CanLearn(vG.chain[k].x, 0, vG.chain[k].sq,
                                  IF vG.chain[k].node THEN NodeMax ELSE EdgeMax)
=============================================================================
