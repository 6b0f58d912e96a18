------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* The runner on every small problem: all observation sequences (repeated  *)
(* and unordered ones too), caps and clocks on which days take 0, 1 or 2.  *)
(* The model here answers with the path and the time it was moved to.      *)
(***************************************************************************)
EXTENDS RunnerRules, TLC

CONSTANTS Days, MaxObs
VARIABLES obs, cap, clock, m, longest
vars == <<obs, cap, clock, m, longest>>

N == 2
Clock(d) == RSum([i \in 1..d |-> clock[i]])

Init == /\ obs \in UNION {[1..k -> 1..Days] : k \in 1..MaxObs}
        /\ cap \in 1..(Days + 1)
        /\ clock \in [1..Days -> 0..2]
        /\ m = Begin
        /\ longest = 0
NewPath == /\ m.left = {} /\ m.path < N
           /\ m' = NextPath(m, 0, obs, cap, <<m.path + 1, "0.0">>)
           /\ longest' = longest
Step == /\ m.left # {}
        /\ m' = Arrive(m, obs, IF Moves(m, Clock) THEN <<m.path, RAdd(Middle(m, Clock), RMul("0.5", Gap(m, Clock)))>>
                               ELSE m.st)
        /\ longest' = IF To(m) - m.at > longest THEN To(m) - m.at ELSE longest
Next == (NewPath \/ Step) /\ UNCHANGED <<obs, cap, clock>>
Spec == Init /\ [][Next]_vars

\* Each path kept, for each observation in order, the state at its own time
Kept == Over(m, N) =>
  /\ Len(m.out) = N
  /\ \A p \in 1..N : Len(m.out[p]) = Len(obs) /\
       \A i \in 1..Len(obs) :
         m.out[p][i][1] = p /\ REq(m.out[p][i][2], Clock(InOrder(obs)[i]))
NoLongStep == longest <= cap
NeverBack == [][m'.path = m.path => m'.at > m.at]_vars
=============================================================================
