-------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* A zero curve: pillars <<date, zero rate, hidden>> in order of date.     *)
(* Hidden pillars take no part in reading it.                              *)
(***************************************************************************)
EXTENDS DayCount, FiniteSets

Visible(pil) == SelectSeq(pil, LAMBDA p : ~p[3])

Years365(a, b) == RDiv(b - a, 365)

\* The rate applying from the day after d: the first pillar's before it,
\* linear in days between pillars, the last one's beyond
Zero(pil, d) ==
  LET v == Visible(pil)
      n == Len(v)
      t == d + 1 IN
  IF t <= v[1][1] THEN v[1][2]
  ELSE IF t > v[n][1] THEN v[n][2]
  ELSE LET i == CHOOSE k \in 2..n : v[k - 1][1] < t /\ t <= v[k][1] IN
       RDiv(RAdd(RMul(t - v[i-1][1], v[i][2]), RMul(v[i][1] - t, v[i-1][2])),
            v[i][1] - v[i-1][1])

\* Discount factor from d to the valuation date s, under a parallel shift of
\* the zero rates by bp basis points
ShiftedDiscount(pil, s, d, bp) ==
  RExp(RNeg(RMul(RAdd(Zero(pil, d), RMul(bp, "1e-4")), Years365(s, d))))

Discount(pil, s, d) == ShiftedDiscount(pil, s, d, 0)

\* Continuously compounded between two dates
ForwardRate(pil, s, a, b) ==
  RDiv(RLn(RDiv(Discount(pil, s, a), Discount(pil, s, b))), Years365(a, b))
=============================================================================
