------------------------------ MODULE DayCount ------------------------------
(***************************************************************************)
(* Day-count conventions, from their definitions.  A year fraction is a    *)
(* sequence of <<numerator, denominator>> whose sum it is.                 *)
(***************************************************************************)
EXTENDS BusinessDays, RealMath

IsFeb29(s)      == MonthOf(s) = 2 /\ DayOf(s) = 29
IsLastOfFeb(s)  == MonthOf(s) = 2 /\ s = LastOfMonth(s)

(* 30/360: a date counts as (year, month, day) after its day is adjusted.  *)
Thirty(a, da, b, db) ==
  360 * (YMD(b).y - YMD(a).y) + 30 * (YMD(b).m - YMD(a).m) + (db - da)

Cap30(d) == MinI(d, 30)

\* Bond basis (US): a February end counts as the 30th, and the second date's
\* too when both are; the second date's 31st only if the first is on the 30th
ThirtyUSA(a, b) ==
  LET fa == IsLastOfFeb(a)
      da == IF fa THEN 30 ELSE Cap30(DayOf(a))
      db == IF fa /\ IsLastOfFeb(b) THEN 30
            ELSE IF DayOf(b) = 31 /\ da = 30 THEN 30 ELSE DayOf(b)
  IN Thirty(a, da, b, db)
ThirtyISMA(a, b) ==
  LET da == Cap30(DayOf(a))
      db == IF DayOf(b) = 31 /\ da = 30 THEN 30 ELSE DayOf(b)
  IN Thirty(a, da, b, db)
ThirtyEuropean(a, b) == Thirty(a, Cap30(DayOf(a)), b, Cap30(DayOf(b)))
ThirtyItalian(a, b) ==
  LET It(s) == IF MonthOf(s) = 2 /\ DayOf(s) > 27 THEN 30 ELSE Cap30(DayOf(s))
  IN Thirty(a, It(a), b, It(b))
\* February ends count as the 30th, but not the termination date itself
ThirtyISDA(a, b, t) ==
  LET da == IF IsLastOfFeb(a) THEN 30 ELSE Cap30(DayOf(a))
      db == IF IsLastOfFeb(b) /\ b # t THEN 30 ELSE Cap30(DayOf(b))
  IN Thirty(a, da, b, db)
\* A second date on the 31st is the next month's first unless the first is on the 30th
ThirtyNASD(a, b) ==
  LET da == Cap30(DayOf(a)) IN
  IF DayOf(b) = 31 /\ da < 30
  THEN Thirty(a, da, b, 1) + 30
  ELSE Thirty(a, da, b, Cap30(DayOf(b)))

\* 29 February does not count
NoLeapIndex(s) ==
  LET t == YMD(s) IN
  365 * t.y + CumDays[t.m] + (IF IsFeb29(s) THEN 28 ELSE t.d)

Count(dc, a, b, t) ==
  CASE dc = "Actual365Fixed.NoLeap" -> NoLeapIndex(b) - NoLeapIndex(a)
    [] dc = "Thirty360.USA"      -> ThirtyUSA(a, b)
    [] dc = "Thirty360.ISMA"     -> ThirtyISMA(a, b)
    [] dc = "Thirty360.European" -> ThirtyEuropean(a, b)
    [] dc = "Thirty360.Italian"  -> ThirtyItalian(a, b)
    [] dc \in {"Thirty360.ISDA", "Thirty360.German"} -> ThirtyISDA(a, b, t)
    [] dc = "Thirty360.NASD"     -> ThirtyNASD(a, b)
    [] dc = "Thirty365"          -> Thirty(a, DayOf(a), b, DayOf(b))
    [] OTHER -> b - a

(* Actual/Actual ISDA: in each calendar year, the days that fall in it     *)
(* over its length.                                                        *)
YearStart(y) == Serial(y, 1, 1)
IsdaParts(a, b) ==
  [i \in 1..(YearOf(b) - YearOf(a) + 1) |->
     LET y == YearOf(a) + i - 1 IN
     << MinI(b, YearStart(y + 1)) - MaxI(a, YearStart(y)), YearLen(y) >>]

(* Actual/Actual Euro (AFB): whole years back from the end, then the days  *)
(* left over 365, or 366 when a 29 February is among them.                 *)
YearsBack(b, k) ==
  LET s == AddMonths(b, -12 * k) IN
  IF k > 0 /\ MonthOf(s) = 2 /\ DayOf(s) = 28 /\ IsLeap(YearOf(s)) THEN s + 1 ELSE s
AfbParts(a, b) ==
  LET top == YearOf(b) - YearOf(a)
      n == CHOOSE k \in 0..top : /\ YearsBack(b, k) >= a
                                 /\ k = top \/ YearsBack(b, k + 1) < a
      e == YearsBack(b, n)
      leapDay == \E y \in YearOf(a)..YearOf(e) :
                   IsLeap(y) /\ a <= Serial(y, 2, 29) /\ Serial(y, 2, 29) < e
  IN << <<n, 1>>, <<e - a, IF leapDay THEN 366 ELSE 365>> >>

NegParts(p) == [i \in 1..Len(p) |-> <<-p[i][1], p[i][2]>>]

Denominator(dc) ==
  CASE dc = "Actual360" -> 360
    [] dc = "Actual364" -> 364
    [] dc = "Actual366" -> 366
    [] dc \in {"Actual365Fixed", "Actual365Fixed.Standard",
               "Actual365Fixed.NoLeap", "Thirty365"} -> 365
    [] OTHER -> 360

YearParts(dc, a, b, t) ==
  CASE dc \in {"ActualActual", "ActualActual.Isda"} ->
         IF a <= b THEN IsdaParts(a, b) ELSE NegParts(IsdaParts(b, a))
    [] dc = "ActualActual.Euro" ->
         IF a <= b THEN AfbParts(a, b) ELSE NegParts(AfbParts(b, a))
    [] OTHER -> << <<Count(dc, a, b, t), Denominator(dc)>> >>

\* Business/252: business days from the first date up to the second
Count252(B(_), a, b) == BusinessDaysBetween(B, a, b, TRUE, FALSE)

SumParts(p) == RSum([i \in 1..Len(p) |-> RDiv(p[i][1], p[i][2])])
=============================================================================
