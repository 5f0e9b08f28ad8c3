------------------------------ MODULE NodePool ------------------------------
(***************************************************************************)
(* Where the tree keeps its inner nodes: places 0..limit-1, of which 0 is   *)
(* the root.  A place is given out, holds what was last put there, and can  *)
(* be given back; how the free places are remembered is left open.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a pool: the number of places, and what the occupied ones hold
PoolNew(limit) == [limit |-> limit, held |-> << >>]

Occupied(p) == DOMAIN p.held
Inner(p) == Occupied(p) \ {0}
PoolFull(p) == Cardinality(Inner(p)) = p.limit - 1
\* a place for something new: any that is free, never the root's
CanTake(p, k) == k \in 1..(p.limit - 1) /\ k \notin Occupied(p)

Put(p, k, x) == [p EXCEPT !.held = [j \in Occupied(p) \cup {k} |-> IF j = k THEN x ELSE p.held[j]]]
PutAll(p, ks, x) == [p EXCEPT !.held = [j \in Occupied(p) \cup ks |-> IF j \in ks THEN x ELSE p.held[j]]]
DropAll(p, ks) == [p EXCEPT !.held = [j \in Occupied(p) \ ks |-> p.held[j]]]
Drop(p, k) == [p EXCEPT !.held = [j \in Occupied(p) \ {k} |-> p.held[j]]]

\* a pool without a root counts as empty
PoolCount(p) == IF 0 \in Occupied(p) THEN Cardinality(Occupied(p)) ELSE 0
=============================================================================
