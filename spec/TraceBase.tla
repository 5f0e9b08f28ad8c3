----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* What every trace specification shares: the recorded runs, and the       *)
(* acceptance condition that every line was followed to its end.           *)
(*                                                                         *)
(* A trace specification starts once per recorded run (variable tr), takes *)
(* one step per recorded event (variable at), and is deterministic, so the  *)
(* number of distinct states is known in advance.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* sum of Steps(t) + 1 over all recorded runs
StatesIn(Steps(_)) == FoldLeft(LAMBDA n, t : n + Steps(t) + 1, 0, Trace)
FullyConsumed(Steps(_)) ==
  TLCGet("stats").distinct = StatesIn(Steps)
=============================================================================
