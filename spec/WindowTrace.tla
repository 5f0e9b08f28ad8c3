---------------------------- MODULE WindowTrace -----------------------------
(* Recorded runs of the input window against Window.  Large windows take    *)
(* bytes in blocks (an old byte leaves for each that finds the window full) *)
(* and lose them in blocks.                                                 *)
EXTENDS Window, TraceBase

VARIABLES tr, at, w
vars == << tr, at, w >>
T == Trace[tr]
Steps(t) == Len(t.ops)

Apply(x, op, a) ==
  CASE op = "grow" -> IF CanGrow(x) THEN Grow(x) ELSE x
    [] op = "shrink" -> IF CanShrink(x) THEN Shrink(x) ELSE x
    [] op = "byte" -> SetByte(x, a[1])
    [] op = "bit" -> SetBit(x, a[1], a[2])
    [] op = "block" -> Block(x, a)
    [] op = "drop" -> Drop(x, a[1])
    [] OTHER -> x

Init == tr \in 1..Len(Trace) /\ at = 0 /\ w = WinInit(Trace[tr].max, Trace[tr].shift)
Next == /\ at < Steps(T) /\ at' = at + 1 /\ tr' = tr
        /\ w' = Apply(w, T.ops[at'].op, T.ops[at'].a)
Spec == Init /\ [][Next]_vars
View == << tr, at >>
\* what is shown of a behaviour that is refused
Place == [tr |-> tr, at |-> at]
Accepted == FullyConsumed(Steps)

Truth(b) == IF b THEN 1 ELSE 0
O == T.ops[at]
\* w is already the state after the operation, which only queries leave alone
Answered ==
  at > 0 =>
    LET a == O.a
        r == O.r
    IN  CASE O.op = "grow" -> r = 1 \/ ~CanGrow(w)
          [] O.op = "shrink" -> r = 1 \/ ~CanShrink(w)
          [] O.op = "cmp" -> r = Truth(Equal(w, a[1], a[2], a[3], a[4]))
          [] O.op = "add" -> r = At(w, a[1] + a[2])
          [] O.op = "inc" -> r = At(w, a[1] + 1)
          [] O.op = "dec" -> r = At(w, a[1] - 1)
          [] O.op = "sub" -> r = At(w, a[1] - a[2])
          [] O.op = "diff" -> r = a[1] - a[2]
          [] O.op = "lt" -> r = Truth(a[1] < a[2])
          [] O.op = "le" -> r = Truth(a[1] <= a[2])
          [] O.op = "differ" -> r = Truth(BitOf(w.bytes[a[1] + 1], a[3]) # BitOf(w.bytes[a[2] + 1], a[3]))
          [] O.op = "get" -> r = BitOf(w.bytes[a[1] + 1], a[2])
          [] OTHER -> TRUE

\* a window that is full refuses to grow, an empty one to shrink
Refuses ==
  at < Steps(T) =>
    LET o == T.ops[at + 1]
    IN  /\ o.op = "grow" => (o.r = 1) = CanGrow(w)
        /\ o.op = "shrink" => (o.r = 1) = CanShrink(w)

Content ==
  (at > 0 /\ O.obs.size >= 0) =>
    LET o == O.obs
    IN  /\ o.size = Size(w) /\ o.max = w.max /\ o.start = w.start
        /\ Size(w) > 0 => o.cursor = Cursor(w)
        /\ (T.kind = "large" => O.full = 1) =>
             /\ o.bytes = w.bytes
             /\ o.idx = Suffixes(w)
             /\ o.suf_err = "" /\ o.suf = Suffixes(w)
NoPanic == T.err = ""
=============================================================================
