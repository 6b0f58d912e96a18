----------------------------- MODULE CalHelpers -----------------------------
(***************************************************************************)
(* Rule combinators: each denotes the set of dates (serials) of a year on  *)
(* which a holiday falls.                                                  *)
(***************************************************************************)
EXTENDS DateMath

MinYear == 1901
MaxYear == 2199

\* Applies only when the condition on the year holds
When(c, S) == IF c THEN S ELSE {}

Fix(y, m, d) == {Serial(y, m, d)}
Days(y, m, ds) == {Serial(y, m, d) : d \in ds}

\* The days ds of month m that fall on one of the weekdays ws
On(y, m, ds, ws) == {s \in Days(y, m, ds) : Dow(s) \in ws}

\* Offsets from Easter Monday (as the market rules are usually stated)
Ea(y, k)  == {EasterMon(y) + k}
Oea(y, k) == {OrthEasterMon(y) + k}
GoodFriday(y)   == Ea(y, -3)
EasterMonday(y) == Ea(y, 0)
Ascension(y)    == Ea(y, 38)
WhitMonday(y)   == Ea(y, 49)
CorpusChristi(y) == Ea(y, 59)

Nth(y, m, n, w) == {NthDow(y, m, n, w)}
NthMon(y, m, n) == Nth(y, m, n, Mon)
LastMon(y, m)   == {LastDow(y, m, Mon)}

\* A fixed day, observed on Monday when it falls on a weekend
ToMon(y, m, d) ==
  LET s == Serial(y, m, d) IN
  {IF Dow(s) = Sat THEN s + 2 ELSE IF Dow(s) = Sun THEN s + 1 ELSE s}

\* A fixed day, observed on Monday when it falls on a Sunday
SunToMon(y, m, d) ==
  LET s == Serial(y, m, d) IN {IF Dow(s) = Sun THEN s + 1 ELSE s}

\* A fixed day, observed on Monday if a Sunday and on Friday if a Saturday
Nearest(y, m, d) ==
  LET s == Serial(y, m, d) IN
  {IF Dow(s) = Sat THEN s - 1 ELSE IF Dow(s) = Sun THEN s + 1 ELSE s}

\* Christmas and Boxing Day, each with a weekend substitute two days later
XmasShift(y)  == Fix(y, 12, 25) \cup On(y, 12, {27}, {Mon, Tue})
BoxingShift(y) == Fix(y, 12, 26) \cup On(y, 12, {28}, {Mon, Tue})

(***************************************************************************)
(* Announced (not computed) holidays: a set of <<from, to, m, d1, d2>>,    *)
(* the days d1..d2 of month m in each of the years from..to.               *)
(***************************************************************************)
Span(T, y) ==
  UNION {Days(y, t[3], t[4]..t[5]) : t \in {u \in T : u[1] <= y /\ y <= u[2]}}
=============================================================================
