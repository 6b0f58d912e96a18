---------------------------- MODULE DayCountLaws ----------------------------
(***************************************************************************)
(* Laws of the day-count conventions, over pairs of dates around month     *)
(* ends, February and turns of years, in and out of leap years.            *)
(***************************************************************************)
EXTENDS DayCount, TLC

CONSTANT Span                          \* days each side of the special dates
VARIABLES a, b, judged
vars == <<a, b, judged>>

Near0(s) == (s - Span)..(s + Span)
Special == UNION {Near0(s) : s \in {Serial(2023, 2, 28), Serial(2024, 2, 29), Serial(2023, 12, 31),
                                    Serial(2024, 12, 31), Serial(2023, 3, 31), Serial(2028, 2, 29),
                                    Serial(2100, 2, 28), Serial(2023, 4, 30)}}
Init == a \in Special /\ b \in Special /\ judged = FALSE
Next == ~judged /\ judged' = TRUE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

Thirties == {"Thirty360.USA", "Thirty360.ISMA", "Thirty360.European", "Thirty360.Italian",
             "Thirty360.ISDA", "Thirty360.NASD"}
T30(dc) == Count(dc, a, b, b)
Leaps(s, t) == Cardinality({y \in YearOf(s)..YearOf(t) :
                 IsLeap(y) /\ s < Serial(y, 2, 29) /\ Serial(y, 2, 29) <= t})
Frac(dc, s, t) == SumParts(YearParts(dc, s, t, t))

Lawful == judged =>
  /\ \A dc \in {"Actual360", "Actual364", "Actual366", "Actual365Fixed"} : Count(dc, a, b, b) = b - a
  \* without its leap days, an actual count
  /\ a <= b => Count("Actual365Fixed.NoLeap", a, b, b) = b - a - Leaps(a, b)
  /\ Count("Actual365Fixed.NoLeap", a, b, b) = -Count("Actual365Fixed.NoLeap", b, a, a)
  \* thirty-day months: within some days of the plain rule, exact over whole years
  /\ \A dc \in Thirties :
       /\ AbsI(T30(dc) - Thirty(a, DayOf(a), b, DayOf(b))) <= 3
       /\ (DayOf(a) <= 28 /\ ~IsLastOfFeb(a)) =>
            Count(dc, a, AddMonths(a, 12), AddMonths(a, 12)) = 360
       /\ a = b => T30(dc) \in {0, 1, 2, -1, -2}
  /\ (DayOf(a) <= 27 /\ DayOf(b) <= 27) =>
       \A dc \in Thirties : T30(dc) = Thirty(a, DayOf(a), b, DayOf(b))
  /\ ThirtyEuropean(a, b) = -ThirtyEuropean(b, a) /\ ThirtyItalian(a, b) = -ThirtyItalian(b, a)
  \* ISDA: additive, and each calendar year is one
  /\ RClose(Frac("ActualActual.Isda", a, b), RNeg(Frac("ActualActual.Isda", b, a)), 0, "1e-13")
  /\ LET c == YearStart(2026) IN
     RClose(Frac("ActualActual.Isda", a, b) (+) Frac("ActualActual.Isda", b, c),
            Frac("ActualActual.Isda", a, c), 0, "1e-12")
  /\ RClose(Frac("ActualActual.Isda", YearStart(YearOf(a)), YearStart(YearOf(a) + 3)), 3, 0, "1e-13")
  \* AFB: whole years count one each, and the rest is less than one
  /\ \A k \in {1, 4} : (DayOf(b) < 28) =>
       RClose(Frac("ActualActual.Euro", AddMonths(b, -12 * k), b), k, 0, "1e-13")
  /\ a <= b => /\ RLe((YearOf(b) - YearOf(a)) (-) "1.003", Frac("ActualActual.Euro", a, b))
               /\ RLe(Frac("ActualActual.Euro", a, b), (YearOf(b) - YearOf(a)) (+) "1.003")
               /\ RClose(Frac("ActualActual.Euro", a, b), (b - a) (/) "365.25", 0, "0.006")
=============================================================================
