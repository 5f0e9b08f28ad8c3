----------------------------- MODULE ProtocolGen -----------------------------
(***************************************************************************)
(* Sequences of calls for replay into the real components.  Cover: for       *)
(* every reachable state of every machine and every call, a shortest         *)
(* permitted way there and then that call (the state graph is explored        *)
(* completely; a refused call ends the sequence).  Walk: long random          *)
(* permitted sequences whose last call is arbitrary.                          *)
(***************************************************************************)
EXTENDS Protocol, Json

CONSTANT Depth
VARIABLES mach, st, done, over
vars == << mach, st, done, over >>

Emit(calls) == PrintT("GEN " \o ToJson([m |-> Machines[mach], c |-> calls]))

Init == mach \in DOMAIN Machines /\ st = Initial(Machines[mach]) /\ done = << >> /\ over = FALSE
Cover == /\ ~over
         /\ \E c \in Calls(Machines[mach]) :
              LET m == Machines[mach] IN
              /\ Tried(m, st, c)
              /\ done' = Append(done, c)
              /\ Emit(done')
              /\ IF Permits(m, st, c) /\ ~Unsure(m, c)
                   THEN st' = After(m, st, c) /\ over' = FALSE
                   ELSE st' = st /\ over' = TRUE
              /\ mach' = mach
CoverSpec == Init /\ [][Cover]_vars
CoverView == IF over THEN << mach, "over" >> ELSE << mach, st >>

Walk == /\ ~over /\ Len(done) < Depth
        /\ \E c \in Calls(Machines[mach]) :
             LET m == Machines[mach] IN
             /\ m.kind # "make" /\ Tried(m, st, c)
             /\ (Permits(m, st, c) /\ ~Unsure(m, c)) \/ Len(done) = Depth - 1
             /\ done' = Append(done, c)
             /\ IF Permits(m, st, c) THEN st' = After(m, st, c) /\ over' = FALSE
                                     ELSE st' = st /\ over' = TRUE
             /\ mach' = mach
WalkSpec == Init /\ [][Walk]_vars
Walked == Len(done) = Depth => Emit(done)

-----------------------------------------------------------------------------
(* On the machines themselves *)
\* no state is a dead end, except a window that is full and does not slide
Alive == (~over /\ ~(Machines[mach].kind = "history" /\ ~Machines[mach].slides)) => \E c \in Calls(Machines[mach]) : Permits(Machines[mach], st, c)
=============================================================================
