------------------------------- MODULE Conform ------------------------------
(***************************************************************************)
(* How a disagreement between a recorded behaviour and the specification   *)
(* is reported: one line per disagreement, which the runner turns into a   *)
(* VIOLATION (or matches with the known findings).  Report is always TRUE, *)
(* so that one run lists every disagreement.                               *)
(***************************************************************************)
EXTENDS TLC, Integers, Sequences

Report(ok, key, why) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH|" \o key \o "|" \o why)
=============================================================================
