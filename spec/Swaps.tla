-------------------------------- MODULE Swaps -------------------------------
(***************************************************************************)
(* Swap schedules and values.  A plan a has step, tenor, duration, conv,   *)
(* eom, sd (days to settle), delay (to payment), before (reset).  A row is *)
(* <<start, end, pay, reset, balance>>.                                    *)
(***************************************************************************)
EXTENDS Curve

\* Whole tenors in the duration, both in months or both in days
InMonths(p) == IF p[1] = "Y" THEN 12 * p[2] ELSE p[2]
InDays(p)   == IF p[1] = "W" THEN 7 * p[2] ELSE p[2]
Periods(a) ==
  IF a.tenor[1] \in {"M", "Y"} THEN InMonths(a.duration) \div InMonths(a.tenor)
  ELSE InDays(a.duration) \div InDays(a.tenor)

Effective(B(_), s, a) == Advance(B, s, <<"D", a.sd>>, a.conv, a.eom)

\* Accruals run back to back from the effective date, each ending a whole
\* number of steps after it
Schedule(B(_), s, a) ==
  LET eff    == Effective(B, s, a)
      End(k) == IF k = 0 THEN eff
                ELSE Advance(B, eff, <<a.step[1], k * a.step[2]>>, a.conv, a.eom)
  IN [k \in 1..Periods(a) |->
        << End(k - 1), End(k),
           Advance(B, End(k), <<"D", a.delay>>, a.conv, FALSE),
           Advance(B, End(k - 1), <<"D", -a.before>>, a.conv, FALSE) >>]

-----------------------------------------------------------------------------
Tau(dc, row) == SumParts(YearParts(dc, row[1], row[2], row[2]))

\* A floating coupon pays what the curve implies over its accrual, plus spread
Coupon(pil, s, leg, row, bp) ==
  LET tau == Tau(leg.dc, row) IN
  IF leg.type = "fixed" THEN RMul(leg.rate, tau)
  ELSE RAdd(RSub(RDiv(ShiftedDiscount(pil, s, row[1], bp),
                      ShiftedDiscount(pil, s, row[2], bp)), 1),
            RMul(leg.rate, tau))

\* Coupons, and the notional back at the end
LegValue(pil, s, leg, bp) ==
  LET n == Len(leg.rows)
      flow(i) == RMul(RMul(Coupon(pil, s, leg, leg.rows[i], bp), leg.rows[i][5]),
                      ShiftedDiscount(pil, s, leg.rows[i][3], bp))
      principal == IF n = 0 THEN 0
                   ELSE RMul(leg.rows[n][5], ShiftedDiscount(pil, s, leg.rows[n][3], bp))
  IN RMul(leg.dir, RAdd(RSum([i \in 1..n |-> flow(i)]), principal))

SwapValue(pil, s, legs, bp) ==
  RSum([i \in 1..Len(legs) |-> LegValue(pil, s, legs[i], bp)])
=============================================================================
