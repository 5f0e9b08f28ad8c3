----------------------------- MODULE NodePoolMC -----------------------------
(* The free places chained through the places themselves, as the code does   *)
(* it, is a correct pool: for every history of operations.                   *)
EXTENDS NodePool
CONSTANTS Limit, Contents

\* items: what each place ever given out holds: a node, or a link to the next
\* free one (0: none).  items[1] is the root.  abs: the pool as specified
VARIABLES items, top, removed, abs
vars == << items, top, removed, abs >>

Link(k) == << "free", k >>
Node(x) == << "node", x >>
NoRoot == << "none", 0 >>

Init == items = << NoRoot >> /\ top = 0 /\ removed = 0 /\ abs = PoolNew(Limit)

AddReused(x) == /\ top # 0
                /\ top' = items[top + 1][2] /\ removed' = removed - 1
                /\ items' = [items EXCEPT ![top + 1] = Node(x)]
                /\ abs' = Put(abs, top, x)
AddFresh(x) == /\ top = 0 /\ Len(items) < Limit
               /\ items' = Append(items, Node(x))
               /\ abs' = Put(abs, Len(items), x) /\ UNCHANGED << top, removed >>
Replace(k, x) == /\ k \in Occupied(abs) \cup {0}
                 /\ items' = [items EXCEPT ![k + 1] = Node(x)]
                 /\ abs' = Put(abs, k, x) /\ UNCHANGED << top, removed >>
Delete(k) == /\ k \in Inner(abs)
             /\ items' = [items EXCEPT ![k + 1] = Link(top)]
             /\ top' = k /\ removed' = removed + 1
             /\ abs' = Drop(abs, k)
Unroot == /\ 0 \in Occupied(abs)
          /\ items' = [items EXCEPT ![1] = NoRoot]
          /\ abs' = Drop(abs, 0) /\ UNCHANGED << top, removed >>
Next == \/ \E x \in Contents : AddReused(x) \/ AddFresh(x)
        \/ \E x \in Contents, k \in 0..(Limit - 1) : Replace(k, x)
        \/ \E k \in 1..(Limit - 1) : Delete(k)
        \/ Unroot
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Chain(_, _)
Chain(k, n) == IF k = 0 \/ n = 0 THEN << >> ELSE << k >> \o Chain(items[k + 1][2], n - 1)
FreeChain == Chain(top, Limit + 1)
Given == 1..(Len(items) - 1)
Elements(q) == {q[n] : n \in DOMAIN q}

\* the chain has every place given back, each once, and its length is known
FreeOnes == /\ Elements(FreeChain) = Given \ Occupied(abs)
            /\ Len(FreeChain) = removed
            /\ Cardinality(Elements(FreeChain)) = removed
Holds == \A k \in Occupied(abs) : items[k + 1] = Node(abs.held[k])
Counts == (IF items[1] = NoRoot THEN 0 ELSE Len(items) - removed) = PoolCount(abs)
\* what is taken next may be taken, and nothing can be taken only if all is
NextPlace == LET k == IF top # 0 THEN top ELSE Len(items)
             IN  IF k = Limit THEN PoolFull(abs) ELSE CanTake(abs, k)
=============================================================================
