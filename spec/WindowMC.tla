------------------------------ MODULE WindowMC ------------------------------
(***************************************************************************)
(* A ring buffer that grows to its final length and then wraps implements  *)
(* the window: every answer computed on indices is the answer about the    *)
(* content.                                                                *)
(***************************************************************************)
EXTENDS Window, FiniteSets
CONSTANTS MaxSize, MaxSteps

VARIABLES w,                    \* the window
          buf, start, cursor, size,  \* the ring buffer
          n
vars == << w, buf, start, cursor, size, n >>

Init ==
  \E max \in 1..MaxSize : \E shift \in 0..(max - 1) :
    /\ w = WinInit(max, shift)
    /\ buf = [k \in 1..shift |-> 0]
    /\ start = shift /\ size = 0 /\ n = 0
    /\ cursor = IF shift > 0 THEN shift - 1 ELSE max - 1

Inc(i) == IF i + 1 = w.max THEN 0 ELSE i + 1
Enter(v) ==
  /\ CanGrow(w)
  /\ w' = SetByte(Grow(w), v)
  /\ cursor' = Inc(cursor)
  /\ buf' = IF Len(buf) = w.max THEN [buf EXCEPT ![Inc(cursor) + 1] = v]
            ELSE Append(buf, v)
  /\ size' = size + 1
  /\ UNCHANGED start
Leave ==
  /\ CanShrink(w)
  /\ w' = Shrink(w)
  /\ buf' = [buf EXCEPT ![start + 1] = 0]
  /\ start' = Inc(start) /\ size' = size - 1
  /\ UNCHANGED cursor
Next == n < MaxSteps /\ n' = n + 1 /\ (Leave \/ \E v \in 0..(Pow(BW) - 1) : Enter(v))
Spec == Init /\ [][Next]_vars

Implements ==
  /\ size = Size(w) /\ start = w.start
  /\ size > 0 => cursor = Cursor(w)
  /\ \A k \in 1..size : buf[At(w, k - 1) + 1] = w.bytes[k]
  /\ Len(buf) <= w.max
\* offsets and indices
Naming ==
  /\ \A k \in 0..(size - 1) : Off(w, At(w, k)) = k
  /\ Cardinality({ At(w, k) : k \in 0..(size - 1) }) = size
  \* order of indices after unwrapping is the order of offsets
  /\ \A a, b \in 0..(size - 1) :
       LET U(i) == IF i < start THEN i + w.max ELSE i
       IN  (U(At(w, a)) < U(At(w, b))) = (a < b)
\* comparing along the ring, wrapping around or not
Comparing ==
  \A a, b \in 0..(size - 1) : \A full \in 0..size : \A j \in 0..(BW - 1) :
    Askable(w, a, b, full, j) =>
      Equal(w, a, b, full, j) =
        /\ \A k \in 0..(full - 1) : buf[At(w, a + k) + 1] = buf[At(w, b + k) + 1]
        /\ \A m \in (j + 1)..(BW - 1) :
             BitOf(buf[At(w, a + full) + 1], m) = BitOf(buf[At(w, b + full) + 1], m)
\* blocks are nothing but many steps
One(x, v) == SetByte(Grow(IF CanGrow(x) THEN x ELSE Shrink(x)), v)
Blocks ==
  /\ \A u, v \in 0..(Pow(BW) - 1) : Block(w, << u, v >>) = One(One(w, u), v)
  /\ size > 0 => Drop(w, 1) = Shrink(w)
  /\ size > 1 => Drop(w, 2) = Shrink(Shrink(w))
=============================================================================
