------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The Nelder-Mead machine against every objective: each point asked for   *)
(* may have any of the Values.  All searches of up to MaxIter iterations.  *)
(***************************************************************************)
EXTENDS NelderMead

CONSTANTS Dim, MaxIter, Values
VARIABLES m, low, asked
vars == <<m, low, asked>>

Init == /\ m = Start([i \in 1..Dim |-> IF i = 1 THEN "1.0" ELSE "0.0"], MaxIter, "0.5", "0.3", "0.5")
        /\ low = "inf"
        /\ asked = 0
Next == /\ m.ph # "done"
        /\ \E f \in Values : m' = Told(m, Ask(m), f) /\ low' = RMin(low, f)
        /\ asked' = asked + 1
Spec == Init /\ [][Next]_vars

\* The best corner is the best point ever valued, and it is what is reported
\* (or the reflection an expansion is yet to be weighed against)
BestKept ==
  Len(m.vals) = Dim + 1 =>
    LET b == m.vals[Ranked(m.vals)[1]] IN REq(low, IF m.ph = "expand" THEN RMin(b, m.fr) ELSE b)
Reported == m.ph = "done" => REq(Answer(m).f, low)
\* Each iteration asks for at most a reflection, a contraction and a shrink
Frugal == asked <= (Dim + 1) + m.it * (Dim + 2)
Bounded == m.it <= MaxIter
\* The values at the corners never get worse from one iteration to the next,
\* but for a shrink
NoWorse == [][m.ph # "shrink" /\ Len(m.vals) = Dim + 1 =>
              \A i \in 1..(Dim + 1) : RLe(m'.vals[i], m.vals[i])]_vars
=============================================================================
