---------------------------- MODULE ObserverTrace ---------------------------
(* P14: the histories generated from Observers, replayed on the real code. *)
EXTENDS Judging, TraceCore, ObserverRules

RECURSIVE After(_, _)
After(acts, n) == IF n = 0 THEN Quiet(Start) ELSE Do(After(acts, n - 1).st, acts[n])

JudgeHistory(r) ==
  \A n \in 1..Len(r.acts) :
    LET w == After(r.acts, n)
        key == ToString(r.acts[n]) \o " in " \o ToString(SubSeq(r.acts, 1, n)) IN
    Same(key, r.saw[n], <<w.calls, w.ok, w.st.curve, 0>>)

SpecHistory == TraceInit /\ [][TraceStep(JudgeHistory)]_vars
=============================================================================
