------------------------------ MODULE CalAsia -------------------------------
(***************************************************************************)
(* Asia and the Middle East.  The computed holidays are rules; those that  *)
(* governments announce year by year (lunar festivals, elections, bridge   *)
(* days) are the tables of CalTables.                                      *)
(***************************************************************************)
EXTENDS CalHelpers, CalTables

China(y) ==
  Fix(y, 1, 1)
  \cup When(y <= 2008, Fix(y, 4, 4) \cup Fix(y, 6, 9) \cup Fix(y, 9, 15))
  \cup When(y <= 2007, Days(y, 5, 1..7) \cup Days(y, 10, 1..7))
  \cup Span(ChinaTable, y)

HongKong(y) ==
  SunToMon(y, 1, 1) \cup SunToMon(y, 5, 1) \cup SunToMon(y, 7, 1)
  \cup SunToMon(y, 10, 1) \cup Days(y, 12, {25, 26})
  \cup GoodFriday(y) \cup EasterMonday(y)
  \cup Span(HongKongTable, y)

India(y) ==
  Fix(y, 1, 26) \cup GoodFriday(y) \cup Fix(y, 4, 14) \cup Fix(y, 5, 1)
  \cup Fix(y, 8, 15) \cup Fix(y, 10, 2) \cup Fix(y, 12, 25)
  \cup Span(IndiaTable, y)

Indonesia(y) ==
  Fix(y, 1, 1) \cup GoodFriday(y) \cup Ascension(y) \cup Fix(y, 8, 17)
  \cup Fix(y, 12, 25) \cup Span(IndonesiaTable, y)

-----------------------------------------------------------------------------
(* The Hebrew calendar: serial of 1 Tishri of Hebrew year h, from the mean *)
(* conjunctions and the four postponement rules.                           *)

HebElapsed(h) ==
  LET mo  == (235 * h - 234) \div 19
      pt  == 12084 + 13753 * mo
      day == mo * 29 + pt \div 25920
  IN  IF (3 * (day + 1)) % 7 < 3 THEN day + 1 ELSE day

RoshHashanahOf(h) ==
  LET a == HebElapsed(h - 1)  b == HebElapsed(h)  c == HebElapsed(h + 1) IN
  -1373427 + b + (IF c - b = 356 THEN 2 ELSE IF b - a = 382 THEN 1 ELSE 0)

NewYearHeb(y) == RoshHashanahOf(y + 3761)
Passover(y)   == NewYearHeb(y) - 163
Purim(y)      == Passover(y) - 30
Shavuot(y)    == Passover(y) + 50
FastDay(y)    == LET s == Passover(y) + 112 IN IF Dow(s) = Sat THEN s + 1 ELSE s
IndependenceDay(y) ==
  LET s == Passover(y) + 20 IN
  CASE Dow(s) = Fri -> s - 1
    [] Dow(s) = Sat -> s - 2
    [] Dow(s) = Mon /\ y >= 2004 -> s + 1
    [] OTHER -> s

HebYears == 2000..2050     \* the years the calendar covers

IsraelTelAviv(y) ==
  When(y \in HebYears,
    {Purim(y), Passover(y), Passover(y) + 5, Passover(y) + 6,
     IndependenceDay(y) - 1, IndependenceDay(y), Shavuot(y), FastDay(y),
     NewYearHeb(y), NewYearHeb(y) + 1,
     NewYearHeb(y) + 8, NewYearHeb(y) + 9,       \* Yom Kippur and its eve
     NewYearHeb(y) + 13, NewYearHeb(y) + 14,     \* Sukkot and its eve
     NewYearHeb(y) + 20, NewYearHeb(y) + 21}     \* Simchat Torah and its eve
    \cup When(y <= 2020, {Passover(y) - 1, Shavuot(y) - 1})
    \cup When(y <= 2019, {NewYearHeb(y) - 1}))

IsraelShir(y) ==
  When(y \in HebYears,
    {Purim(y), Purim(y) + 1, Passover(y) - 1, Passover(y), Passover(y) + 6,
     IndependenceDay(y), Shavuot(y), FastDay(y),
     NewYearHeb(y) - 1, NewYearHeb(y), NewYearHeb(y) + 1,
     NewYearHeb(y) + 8, NewYearHeb(y) + 9, NewYearHeb(y) + 14,
     NewYearHeb(y) + 21})
  \cup Fix(y, 1, 1) \cup GoodFriday(y) \cup Days(y, 12, {25, 26})
  \cup When(y # 2022, LastMon(y, 5))
  \cup Span({ <<2024, 2024, 2, 27, 27>>, <<2022, 2022, 6, 3, 3>>,
              <<2022, 2022, 11, 1, 1>>, <<2023, 2023, 1, 2, 2>>,
              <<2023, 2023, 4, 10, 10>> }, y)

-----------------------------------------------------------------------------
(* Japan: the equinoxes drift by 0.242194 days a year, less leap days.     *)

EquinoxDay(exact2000, y) ==
  LET k == y - 2000
      n == (k \div 4) - (k \div 100) + (k \div 400)
  IN  (exact2000 + k * 242194 - n * 1000000) \div 1000000
VernalEquinox(y)   == EquinoxDay(20691150, y)
AutumnalEquinox(y) == EquinoxDay(23090000, y)

Japan(y) ==
  Days(y, 1, {1, 2, 3})
  \cup (IF y >= 2000 THEN NthMon(y, 1, 2) ELSE SunToMon(y, 1, 15))   \* Coming of Age
  \cup SunToMon(y, 2, 11)
  \cup When(y >= 2020, SunToMon(y, 2, 23))
  \cup When(y \in 1989..2018, SunToMon(y, 12, 23))
  \cup SunToMon(y, 3, VernalEquinox(y))
  \cup SunToMon(y, 4, 29)
  \cup Days(y, 5, {3, 4, 5}) \cup On(y, 5, {6}, {Mon, Tue, Wed})
  \cup (CASE y \in 1996..2002 -> SunToMon(y, 7, 20)                  \* Marine Day
          [] y = 2020 -> Days(y, 7, {23, 24})                        \* Olympics
          [] y = 2021 -> Days(y, 7, {22, 23})
          [] y >= 2003 -> NthMon(y, 7, 3)
          [] OTHER -> {})
  \cup (CASE y = 2020 -> Fix(y, 8, 10)                               \* Mountain Day
          [] y = 2021 -> Fix(y, 8, 9)
          [] y >= 2016 -> SunToMon(y, 8, 11)
          [] OTHER -> {})
  \cup (IF y >= 2003 THEN NthMon(y, 9, 3) ELSE SunToMon(y, 9, 15))   \* Aged Day
  \cup SunToMon(y, 9, AutumnalEquinox(y))
  \* A day between Respect for the Aged Day and the equinox
  \cup When(y >= 2003 /\ NthDow(y, 9, 3, Mon) + 2 = Serial(y, 9, AutumnalEquinox(y)),
            {NthDow(y, 9, 3, Mon) + 1})
  \cup (CASE y < 2000 -> SunToMon(y, 10, 10)                         \* Sports Day
          [] y \in {2020, 2021} -> {}
          [] OTHER -> NthMon(y, 10, 2))
  \cup SunToMon(y, 11, 3) \cup SunToMon(y, 11, 23) \cup Fix(y, 12, 31)
  \cup Span({ <<1959, 1959, 4, 10, 10>>, <<1989, 1989, 2, 24, 24>>,
              <<1990, 1990, 11, 12, 12>>, <<1993, 1993, 6, 9, 9>>,
              <<2019, 2019, 4, 30, 30>>, <<2019, 2019, 5, 1, 2>>,
              <<2019, 2019, 10, 22, 22>> }, y)

-----------------------------------------------------------------------------
Singapore(y) ==
  SunToMon(y, 1, 1) \cup GoodFriday(y) \cup Fix(y, 5, 1) \cup SunToMon(y, 8, 9)
  \cup Fix(y, 12, 25) \cup Span(SingaporeTable, y)

SouthKorea(y) ==
  Fix(y, 1, 1)
  \cup Fix(y, 3, 1) \cup When(y > 2021, ToMon(y, 3, 1))
  \cup When(y <= 2005, Fix(y, 4, 5)) \cup Fix(y, 5, 1)
  \cup Fix(y, 5, 5) \cup When(y > 2013, ToMon(y, 5, 5))
  \cup Fix(y, 6, 6) \cup When(y <= 2007, Fix(y, 7, 17))
  \cup Fix(y, 8, 15) \cup When(y > 2020, ToMon(y, 8, 15))
  \cup Fix(y, 10, 3) \cup When(y > 2020, ToMon(y, 10, 3))
  \cup When(y >= 2013, Fix(y, 10, 9)) \cup When(y > 2020, ToMon(y, 10, 9))
  \cup Fix(y, 12, 25) \cup When(y > 2022, ToMon(y, 12, 25))
  \cup Span(SouthKoreaTable, y)

Taiwan(y) ==
  Fix(y, 1, 1) \cup Fix(y, 2, 28)
  \cup When(y \notin {2008, 2009, 2012, 2017}, Fix(y, 4, 5))
  \cup Fix(y, 5, 1) \cup Fix(y, 10, 10) \cup Span(TaiwanTable, y)

Thailand(y) ==
  Fix(y, 1, 1) \cup On(y, 1, {3}, {Mon}) \cup ToMon(y, 4, 6)
  \cup When(y # 2020, Days(y, 4, 13..15) \cup On(y, 4, {16}, {Mon, Tue}))
  \cup ToMon(y, 5, 1)
  \cup When(y >= 2019, ToMon(y, 5, 4) \cup ToMon(y, 6, 3))
  \cup When(y >= 2017, ToMon(y, 7, 28) \cup ToMon(y, 10, 13))
  \cup ToMon(y, 8, 12) \cup When(y # 2021, ToMon(y, 10, 23))
  \cup ToMon(y, 12, 5) \cup ToMon(y, 12, 10) \cup Fix(y, 12, 31)
  \cup On(y, 1, {2}, {Mon}) \cup Span(ThailandTable, y)

Turkey(y) ==
  Fix(y, 1, 1) \cup Fix(y, 4, 23) \cup Days(y, 5, {1, 19})
  \cup When(y >= 2017, Fix(y, 7, 15)) \cup Fix(y, 8, 30) \cup Fix(y, 10, 29)
  \cup Span(TurkeyTable, y)
=============================================================================
