---------------------------- MODULE BusinessDays ----------------------------
(***************************************************************************)
(* Rolling, advancing and counting, for any set of business days.          *)
(* B(_) is the business-day predicate of a calendar.                       *)
(***************************************************************************)
EXTENDS DateMath

Conventions == {"F", "MF", "HMF", "P", "MP", "U", "N"}

\* A calendar given by its exceptions x to closed (we) or open weekends
PatternOpen(we, x, s) == (IF we THEN Dow(s) \notin {Sat, Sun} ELSE TRUE) # (s \in x)

Horizon == 1000        \* no calendar is closed for longer

\* The first business day on or after s, the last one on or before s
NextB(B(_), s) ==
  LET k == CHOOSE n \in 0..Horizon : B(s + n) IN s + k
PrevB(B(_), s) ==
  LET k == CHOOSE n \in 0..Horizon : B(s - n) IN s - k

SameMonth(a, b) == YMD(a).y = YMD(b).y /\ YMD(a).m = YMD(b).m
SameHalf(a, b)  == SameMonth(a, b) /\ ((DayOf(a) <= 15) <=> (DayOf(b) <= 15))

Adjust(B(_), s, conv) ==
  CASE conv = "U"   -> s
    [] conv = "F"   -> NextB(B, s)
    [] conv = "P"   -> PrevB(B, s)
    [] conv = "MF"  -> LET n == NextB(B, s) IN
                       IF SameMonth(n, s) THEN n ELSE PrevB(B, s)
    [] conv = "HMF" -> LET n == NextB(B, s) IN
                       IF SameHalf(n, s) THEN n ELSE PrevB(B, s)
    [] conv = "MP"  -> LET p == PrevB(B, s) IN
                       IF SameMonth(p, s) THEN p ELSE NextB(B, s)
    [] conv = "N"   -> LET n == NextB(B, s)  p == PrevB(B, s) IN
                       IF n - s <= s - p THEN n ELSE p

\* n-th business day after (n > 0) or before (n < 0) s
RECURSIVE Walk(_, _, _)
Walk(B(_), s, n) ==
  CASE n = 0 -> s
    [] n > 0 -> Walk(B, NextB(B, s + 1), n - 1)
    [] n < 0 -> Walk(B, PrevB(B, s - 1), n + 1)

LastBusinessDayOfMonth(B(_), s) == PrevB(B, LastOfMonth(s))

(***************************************************************************)
(* A period is <<kind, n>>.  Plain addition of a period to a date:         *)
(***************************************************************************)
Plus(s, p) ==
  CASE p[1] \in {"ON", "TN", "SN"} -> s + 1
    [] p[1] = "SPOT" -> s
    [] p[1] = "D" -> s + p[2]
    [] p[1] = "W" -> s + 7 * p[2]
    [] p[1] = "M" -> AddMonths(s, p[2])
    [] p[1] = "Y" -> AddMonths(s, 12 * p[2])

Minus(s, p) ==
  CASE p[1] \in {"ON", "TN", "SN"} -> s - 1
    [] p[1] = "SPOT" -> s
    [] p[1] = "D" -> s - p[2]
    [] p[1] = "W" -> s - 7 * p[2]
    [] p[1] = "M" -> AddMonths(s, -p[2])
    [] p[1] = "Y" -> AddMonths(s, -12 * p[2])

(***************************************************************************)
(* Advancing on a calendar.  Days are business days.  Months and years     *)
(* keep a month end at the month end when asked to; the calendar's last    *)
(* day when unadjusted, the last business day otherwise.                   *)
(***************************************************************************)
Advance(B(_), s, p, conv, eom) ==
  LET t == Plus(s, p) IN
  CASE p[1] = "D" -> IF p[2] = 0 THEN Adjust(B, s, conv) ELSE Walk(B, s, p[2])
    [] p[1] \in {"M", "Y"} ->
         IF eom /\ conv = "U"
         THEN IF s = LastOfMonth(s) THEN LastOfMonth(t) ELSE t
         ELSE IF eom /\ s >= LastBusinessDayOfMonth(B, s)
              THEN LastBusinessDayOfMonth(B, t)
              ELSE Adjust(B, t, conv)
    [] OTHER -> Adjust(B, t, conv)

(***************************************************************************)
(* Business days from one date to another, each end in or out; negative    *)
(* when the dates are the other way round.                                 *)
(***************************************************************************)
CountB(B(_), a, b, first, last) ==
  Cardinality({d \in a..b : /\ B(d)
                            /\ (d = a => first)
                            /\ (d = b => last)})

BusinessDaysBetween(B(_), a, b, first, last) ==
  IF a > b THEN -CountB(B, b, a, first, last) ELSE CountB(B, a, b, first, last)
=============================================================================
