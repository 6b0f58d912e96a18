---------------------------- MODULE ForwardPoints ---------------------------
(***************************************************************************)
(* Forward points of a pair: quotes <<tenor, points>> at their settlement  *)
(* dates, linear in days between neighbouring dates, none outside.         *)
(***************************************************************************)
EXTENDS FxDates, RealMath

SettlesOn(B(_), s, quotes, lag) ==
  [i \in 1..Len(quotes) |-> FarDate(B, s, quotes[i][1], lag)]

\* The admissible answers: more than one only where quotes share a date
PointsAt(B(_), s, quotes, lag, t) ==
  IF t <= s \/ Len(quotes) < 2 THEN {"none"}
  ELSE LET d  == SettlesOn(B, s, quotes, lag)
           at == {i \in DOMAIN d : d[i] = t}
           lo == {i \in DOMAIN d : d[i] < t /\ \A j \in DOMAIN d : d[j] < t => d[j] <= d[i]}
           hi == {i \in DOMAIN d : d[i] > t /\ \A j \in DOMAIN d : d[j] > t => d[j] >= d[i]}
       IN IF at # {} THEN {quotes[i][2] : i \in at}
          ELSE IF lo = {} \/ hi = {} THEN {"none"}
          ELSE {RAdd(quotes[i][2],
                     RMul(RSub(quotes[j][2], quotes[i][2]),
                          RDiv(t - d[i], d[j] - d[i]))) : i \in lo, j \in hi}
=============================================================================
