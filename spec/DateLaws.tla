------------------------------ MODULE DateLaws ------------------------------
(***************************************************************************)
(* The calendar as a clock: a day follows a day, months have their length, *)
(* leap years are the Gregorian ones, and weekdays go round.  Along its    *)
(* run, the arithmetic of DateMath (serials, weekdays, adding months,      *)
(* feasts) and of Imm must say where the clock is.  A clock is started     *)
(* from the arithmetic each year, and the one before must run into it.     *)
(***************************************************************************)
EXTENDS Imm, TLC

CONSTANTS From, To                      \* years

VARIABLES n, y, m, d, w, leap4          \* serial, date, weekday, years to a leap year's turn
vars == <<n, y, m, d, w, leap4>>

Long == {1, 3, 5, 7, 8, 10, 12}
Leap == leap4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days == IF m \in Long THEN 31 ELSE IF m # 2 THEN 30 ELSE IF Leap THEN 29 ELSE 28

Init == \E k \in 0..(To - From) :
          /\ y = From + k /\ m = 1 /\ d = 1
          /\ n = Serial(y, 1, 1) /\ w = Dow(n) /\ leap4 = y % 4
Tick == /\ y <= To
        /\ n' = n + 1 /\ w' = (w + 1) % 7
        /\ d' = IF d = Days THEN 1 ELSE d + 1
        /\ m' = IF d < Days THEN m ELSE IF m = 12 THEN 1 ELSE m + 1
        /\ y' = IF d = Days /\ m = 12 THEN y + 1 ELSE y
        /\ leap4' = IF d = Days /\ m = 12 THEN (leap4 + 1) % 4 ELSE leap4
Spec == Init /\ [][Tick]_vars

Told ==                     \* the arithmetic knows where the clock is
  /\ YMD(n) = [y |-> y, m |-> m, d |-> d] /\ Serial(y, m, d) = n
  /\ Dow(n) = w /\ IsLeap(y) = Leap /\ MonthLen(y, m) = Days
  /\ FirstOfMonth(n) = n - d + 1 /\ LastOfMonth(n) = n - d + Days
  /\ DoyOf(n) \in 1..YearLen(y)

\* 1 January 2000 was a Saturday
Epoch == (y = 2000 /\ m = 1 /\ d = 1) => w = Sat

Moved ==                    \* months ahead and back
  \A k \in {1, 2, 6, 11, 12, 13, 48} :
    LET a == AddMonths(n, k)  b == AddMonths(n, -k) IN
    /\ YMD(a).y * 12 + YMD(a).m = y * 12 + m + k
    /\ YMD(b).y * 12 + YMD(b).m = y * 12 + m - k
    /\ DayOf(a) <= d /\ (DayOf(a) < d => a = LastOfMonth(a))
    /\ DayOf(b) <= d /\ (DayOf(b) < d => b = LastOfMonth(b))
    /\ (d <= 28 => AddMonths(a, -k) = n)

\* The paschal moons: no Easter outside its five weeks, always a Sunday, the
\* Orthodox one never earlier
Feasts ==
  (m = 1 /\ d = 1) =>
    LET e == EasterSunday(y)  o == OrthodoxEasterSunday(y) IN
    /\ Dow(e) = Sun /\ e >= Serial(y, 3, 22) /\ e <= Serial(y, 4, 25)
    /\ Dow(o) = Sun /\ o >= e /\ (o - e) \in {0, 7, 28, 35}
    /\ o >= Serial(y, 4, 3) /\ o <= Serial(y, 5, 10)

Fixings ==                  \* third Wednesdays, and their codes
  /\ IsImm(n, FALSE) <=> (w = Wed /\ d \in 15..21)
  /\ IsImm(n, TRUE) <=> (w = Wed /\ d \in 15..21 /\ m % 3 = 0)
  /\ LET x == NextImm(n, FALSE)  q == NextImm(n, TRUE) IN
     /\ x > n /\ x <= n + 35 /\ q >= x /\ q <= n + 98
     /\ CodeDate(MonthOf(q), YearOf(q) % 10, n + 1) = q
=============================================================================
