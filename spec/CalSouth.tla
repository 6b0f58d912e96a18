------------------------------ MODULE CalSouth ------------------------------
(* Oceania and Southern Africa *)
EXTENDS CalHelpers

AustraliaASX(y) ==
  ToMon(y, 1, 1) \cup ToMon(y, 1, 26) \cup GoodFriday(y) \cup EasterMonday(y)
  \cup Fix(y, 4, 25) \cup NthMon(y, 6, 2) \cup XmasShift(y) \cup BoxingShift(y)
  \cup When(y = 2022, Fix(y, 9, 22))

AustraliaSettlement(y) == AustraliaASX(y) \cup NthMon(y, 8, 1) \cup NthMon(y, 10, 1)

Matariki ==
  { <<2022, 6, 24>>, <<2023, 7, 14>>, <<2024, 6, 28>>, <<2025, 6, 20>>,
    <<2026, 7, 10>>, <<2027, 6, 25>>, <<2028, 7, 14>>, <<2029, 7, 6>>,
    <<2030, 6, 21>>, <<2031, 7, 11>>, <<2032, 7, 2>>, <<2033, 6, 24>>,
    <<2034, 7, 7>>, <<2035, 6, 29>>, <<2036, 7, 18>>, <<2037, 7, 10>>,
    <<2038, 6, 25>>, <<2039, 7, 15>>, <<2040, 7, 6>>, <<2041, 7, 19>>,
    <<2042, 7, 11>>, <<2043, 7, 3>>, <<2044, 6, 24>>, <<2045, 7, 7>>,
    <<2046, 6, 29>>, <<2047, 7, 19>>, <<2048, 7, 3>>, <<2049, 6, 25>>,
    <<2050, 7, 15>>, <<2051, 6, 30>>, <<2052, 6, 21>> }

NewZealandCommon(y) ==
  Days(y, 1, {1, 2}) \cup On(y, 1, {3, 4}, {Mon, Tue})
  \cup Fix(y, 2, 6) \cup When(y > 2013, ToMon(y, 2, 6) \cup ToMon(y, 4, 25))
  \cup GoodFriday(y) \cup EasterMonday(y) \cup Fix(y, 4, 25)
  \cup NthMon(y, 6, 1) \cup NthMon(y, 10, 4)
  \cup XmasShift(y) \cup BoxingShift(y)
  \cup {Serial(y, t[2], t[3]) : t \in {u \in Matariki : u[1] = y}}
  \cup When(y = 2022, Fix(y, 9, 26))

\* Anniversary days: the Monday nearest 22 (29) January
NewZealandWellington(y) == NewZealandCommon(y) \cup On(y, 1, 19..25, {Mon})
NewZealandAuckland(y) ==
  NewZealandCommon(y) \cup On(y, 1, 26..31, {Mon}) \cup On(y, 2, {1}, {Mon})

Botswana(y) ==
  Fix(y, 1, 1) \cup On(y, 1, {2}, {Mon}) \cup On(y, 1, {3}, {Tue})
  \cup GoodFriday(y) \cup EasterMonday(y) \cup SunToMon(y, 5, 1)
  \cup Ascension(y) \cup SunToMon(y, 7, 1) \cup NthMon(y, 7, 3)
  \cup SunToMon(y, 9, 30)
  \cup Fix(y, 10, 1) \cup On(y, 10, {2}, {Mon}) \cup On(y, 10, {3}, {Tue})
  \cup Fix(y, 12, 25) \cup SunToMon(y, 12, 26)

SouthAfrica(y) ==
  SunToMon(y, 1, 1) \cup GoodFriday(y) \cup EasterMonday(y) \cup SunToMon(y, 3, 21)
  \cup SunToMon(y, 4, 27) \cup SunToMon(y, 5, 1) \cup SunToMon(y, 6, 16)
  \cup SunToMon(y, 8, 9) \cup SunToMon(y, 9, 24) \cup SunToMon(y, 12, 16)
  \cup Fix(y, 12, 25) \cup SunToMon(y, 12, 26)
  \cup Span({ <<2004, 2004, 4, 14, 14>>, <<2009, 2009, 4, 22, 22>>,
              <<2016, 2016, 8, 3, 3>>, <<2021, 2021, 11, 1, 1>>,
              <<2022, 2022, 12, 27, 27>>, <<2023, 2023, 12, 15, 15>>,
              <<2024, 2024, 5, 29, 29>> }, y)
=============================================================================
