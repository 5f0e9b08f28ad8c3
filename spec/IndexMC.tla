------------------------------- MODULE IndexMC -------------------------------
(* For all dimension vectors: every index comes from exactly one tuple;      *)
(* buckets are consecutive.                                                  *)
EXTENDS Index
CONSTANTS MaxDims, MaxLimit
VARIABLE dims
Init == \E n \in 1..MaxDims : dims \in [1..n -> 1..MaxLimit]
Next == UNCHANGED dims
Spec == Init /\ [][Next]_dims

Tuples == LET R[k \in 0..Len(dims)] == IF k = 0 THEN {<< >>}
                ELSE { Append(t, v) : t \in R[k - 1], v \in 0..(dims[k] - 1) }
          IN R[Len(dims)]
Bijective ==
  /\ \A t \in Tuples : Combine(dims, t) \in 0..(Size(dims) - 1) /\ Split(dims, Combine(dims, t)) = t
  /\ { Combine(dims, t) : t \in Tuples } = 0..(Size(dims) - 1)
\* lexicographic order
Ordered == \A t, u \in Tuples :
  (\E k \in 1..Len(dims) : t[k] < u[k] /\ \A j \in 1..(k - 1) : t[j] = u[j]) => Combine(dims, t) < Combine(dims, u)
ASSUME \A n \in 0..5000 : Bucket(n + 1) \in {Bucket(n), Bucket(n) + 1}
ASSUME Bucket(0) = 0 /\ Bucket(65535) = 31
=============================================================================
