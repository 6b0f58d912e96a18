------------------------------ MODULE TraceCore -----------------------------
(***************************************************************************)
(* How a specification walks through what was recorded from the code.      *)
(*                                                                         *)
(* Each record is one observed step.  The records are dealt to Lanes       *)
(* independent walkers, so that TLC's workers share them; a walker takes   *)
(* its next record and Judge decides it.  Judge reports disagreements      *)
(* (Conform.tla) and is TRUE, so that one run decides every record; the    *)
(* runner requires Lanes + Len(Trace) distinct states: nothing skipped.    *)
(***************************************************************************)
EXTENDS Conform, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lanes == 64

VARIABLES lane, pos
vars == <<lane, pos>>

At(l, p) == (p - 1) * Lanes + l

TraceInit == lane \in 1..Lanes /\ pos = 0

TraceStep(Judge(_)) ==
  /\ At(lane, pos + 1) <= Len(Trace)
  /\ Judge(Trace[At(lane, pos + 1)])
  /\ pos' = pos + 1
  /\ lane' = lane
=============================================================================
