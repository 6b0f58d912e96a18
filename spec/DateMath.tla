------------------------------ MODULE DateMath ------------------------------
(***************************************************************************)
(* Proleptic Gregorian calendar arithmetic, from first principles.         *)
(*                                                                         *)
(* A date is a serial number: the number of days since 0000-12-31, so that *)
(* 0001-01-01 (a Monday) is day 1.  Nothing here is derived from the code  *)
(* under verification or from the library it uses (chrono).                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Mon == 0  Tue == 1  Wed == 2  Thu == 3  Fri == 4  Sat == 5  Sun == 6

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365>>

\* Days of the year that precede month m of year y (m = 13: the year's length)
Before(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

MonthLen(y, m) == Before(y, m + 1) - Before(y, m)
YearLen(y)     == IF IsLeap(y) THEN 366 ELSE 365

\* Days that precede 1 January of year y
BeforeYear(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100)
                   + ((y - 1) \div 400)

Serial(y, m, d) == BeforeYear(y) + Before(y, m) + d

Dow(s) == (s - 1) % 7

\* Year of serial s: the unique y with BeforeYear(y) < s <= BeforeYear(y + 1)
YearOf(s) ==
  LET y0 == (s * 400) \div 146097 IN
  CHOOSE y \in (y0 - 1)..(y0 + 2) : BeforeYear(y) < s /\ s <= BeforeYear(y + 1)

DoyOf(s)   == s - BeforeYear(YearOf(s))

YMD(s) ==
  LET y == YearOf(s)
      n == s - BeforeYear(y)
      m == CHOOSE k \in 1..12 : Before(y, k) < n /\ n <= Before(y, k + 1)
  IN  [y |-> y, m |-> m, d |-> n - Before(y, m)]

MonthOf(s) == YMD(s).m
DayOf(s)   == YMD(s).d

FirstOfMonth(s) == LET t == YMD(s) IN Serial(t.y, t.m, 1)
LastOfMonth(s)  == LET t == YMD(s) IN Serial(t.y, t.m, MonthLen(t.y, t.m))

ValidYMD(y, m, d) == m \in 1..12 /\ d \in 1..MonthLen(y, m)

(***************************************************************************)
(* Adding months keeps the day of the month, clamped to the target month's *)
(* length; one year is twelve months.                                      *)
(***************************************************************************)
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
AbsI(a)    == IF a < 0 THEN -a ELSE a

AddMonths(s, k) ==
  LET t  == YMD(s)
      n  == t.y * 12 + (t.m - 1) + k
      y2 == n \div 12
      m2 == (n % 12) + 1
  IN  Serial(y2, m2, MinI(t.d, MonthLen(y2, m2)))

(***************************************************************************)
(* Nth weekday of a month, last weekday of a month.                        *)
(***************************************************************************)
NthDow(y, m, n, w) ==
  LET f == Serial(y, m, 1) IN f + ((w - Dow(f)) % 7) + 7 * (n - 1)

LastDow(y, m, w) ==
  LET l == Serial(y, m, MonthLen(y, m)) IN l - ((Dow(l) - w) % 7)

(***************************************************************************)
(* Easter.  Gregorian: the anonymous (Meeus/Jones/Butcher) algorithm.      *)
(* Orthodox: Meeus' Julian algorithm, moved to the Gregorian calendar.     *)
(***************************************************************************)
EasterSunday(y) ==
  LET a == y % 19
      b == y \div 100
      c == y % 100
      d == b \div 4
      e == b % 4
      f == (b + 8) \div 25
      g == (b - f + 1) \div 3
      h == (19 * a + b - d - g + 15) % 30
      i == c \div 4
      k == c % 4
      l == (32 + 2 * e + 2 * i - h - k) % 7
      m == (a + 11 * h + 22 * l) \div 451
      n == h + l - 7 * m + 114
  IN  Serial(y, n \div 31, (n % 31) + 1)

OrthodoxEasterSunday(y) ==
  LET a == y % 4
      b == y % 7
      c == y % 19
      d == (19 * c + 15) % 30
      e == (2 * a + 4 * b - d + 34) % 7
      n == d + e + 114
      \* Julian (n \div 31, (n % 31) + 1), plus the difference of the calendars
      shift == (y \div 100) - (y \div 400) - 2
  IN  Serial(y, n \div 31, (n % 31) + 1) + shift

EasterMon(y)   == EasterSunday(y) + 1
OrthEasterMon(y) == OrthodoxEasterSunday(y) + 1
=============================================================================
