---------------------------- MODULE CalAmericas -----------------------------
EXTENDS CalHelpers

Argentina(y) ==
  Fix(y, 1, 1) \cup Ea(y, -4) \cup GoodFriday(y) \cup Fix(y, 5, 1)
  \cup Fix(y, 5, 25)                        \* May Revolution
  \cup NthMon(y, 6, 3)                      \* General Belgrano
  \cup Fix(y, 7, 9)                         \* Independence Day
  \cup NthMon(y, 8, 3)                      \* General San Martin
  \cup On(y, 10, {10, 11, 12, 15, 16}, {Mon})   \* Columbus Day
  \cup Fix(y, 12, 8) \cup Fix(y, 12, 24)
  \cup Fix(y, 12, 31) \cup On(y, 12, {30}, {Fri})

BrazilShared(y) ==
  Fix(y, 1, 1) \cup Fix(y, 4, 21) \cup Fix(y, 5, 1) \cup Fix(y, 9, 7)
  \cup Fix(y, 10, 12) \cup Fix(y, 11, 2) \cup Fix(y, 11, 15)
  \cup Fix(y, 12, 25) \cup GoodFriday(y)
  \cup Ea(y, -49) \cup Ea(y, -48)           \* Carnival
  \cup CorpusChristi(y)

BrazilSettlement(y) == BrazilShared(y) \cup When(y >= 2024, Fix(y, 11, 20))

BrazilExchange(y) ==
  BrazilShared(y)
  \cup When(y < 2022, Fix(y, 1, 25) \cup Fix(y, 7, 9))
  \cup When(y >= 2007 /\ y \notin {2022, 2023}, Fix(y, 11, 20))
  \cup Fix(y, 12, 24)
  \cup Fix(y, 12, 31) \cup On(y, 12, {29, 30}, {Fri})   \* last business day

CanadaTSX(y) ==
  ToMon(y, 1, 1)
  \cup When(y >= 2008, NthMon(y, 2, 3))     \* Family Day
  \cup GoodFriday(y)
  \cup On(y, 5, 18..24, {Mon})              \* Victoria Day
  \cup ToMon(y, 7, 1)                       \* Canada Day
  \cup NthMon(y, 8, 1) \cup NthMon(y, 9, 1)
  \cup When(y >= 2021, ToMon(y, 9, 30))     \* Truth and Reconciliation
  \cup NthMon(y, 10, 2)
  \cup XmasShift(y) \cup BoxingShift(y)

CanadaSettlement(y) == CanadaTSX(y) \cup ToMon(y, 11, 11)

\* Day of the June solstice in Chile's legal time, announced for 2021-2199:
\* the 21st in these years, the 20th otherwise.
AboriginalDay21 ==
  {2021, 2022, 2023, 2026, 2027, 2030, 2031, 2034, 2035, 2038, 2039, 2042,
   2043, 2046, 2047, 2051, 2055, 2059, 2063, 2067, 2071, 2075}
  \cup ((2100..2199) \ {2108, 2112, 2116, 2120, 2124, 2128, 2132, 2136, 2137,
     2140, 2141, 2144, 2145, 2148, 2149, 2152, 2153, 2156, 2157, 2160, 2161,
     2164, 2165, 2168, 2169, 2170, 2172, 2173, 2174, 2176, 2177, 2178, 2180,
     2181, 2182, 2184, 2185, 2186, 2188, 2189, 2190, 2192, 2193, 2194, 2196,
     2197, 2198, 2199})

Chile(y) ==
  Fix(y, 1, 1) \cup When(y > 2016, On(y, 1, {2}, {Mon}))
  \cup When(y = 2018, Fix(y, 1, 16))        \* Papal visit
  \cup GoodFriday(y) \cup Ea(y, -2)
  \cup When(y = 2017, Fix(y, 4, 19))        \* Census
  \cup Fix(y, 5, 1) \cup Fix(y, 5, 21)
  \cup When(y >= 2021, Fix(y, 6, IF y \in AboriginalDay21 THEN 21 ELSE 20))
  \cup On(y, 6, 26..29, {Mon}) \cup On(y, 7, {2}, {Mon})  \* Peter and Paul
  \cup Fix(y, 7, 16) \cup Fix(y, 8, 15)
  \cup When(y = 2022, Fix(y, 9, 16))
  \cup When(y >= 2007, On(y, 9, {17}, {Mon}))
  \cup When(y > 2016, On(y, 9, {17}, {Fri}))
  \cup Fix(y, 9, 18) \cup Fix(y, 9, 19)
  \cup When(y >= 2007, On(y, 9, {20}, {Fri}))
  \cup On(y, 10, {9, 10, 11, 12, 15}, {Mon})  \* Two Worlds
  \cup When(y >= 2008,                        \* Reformation Day
         LET r == Serial(y, 10, 31) IN
         {CASE Dow(r) = Tue -> r - 4 [] Dow(r) = Wed -> r + 2 [] OTHER -> r})
  \cup Fix(y, 11, 1) \cup Fix(y, 12, 8) \cup Fix(y, 12, 25)
  \cup Fix(y, 12, 31)

Mexico(y) ==
  Fix(y, 1, 1)
  \cup (IF y <= 2005 THEN Fix(y, 2, 5) \cup Fix(y, 3, 21) \cup Fix(y, 11, 20)
        ELSE NthMon(y, 2, 1) \cup NthMon(y, 3, 3) \cup NthMon(y, 11, 3))
  \cup Ea(y, -4) \cup GoodFriday(y) \cup Fix(y, 5, 1) \cup Fix(y, 9, 16)
  \cup When(y >= 2024 /\ (y - 2024) % 6 = 0, Fix(y, 10, 1))  \* Inauguration
  \cup Fix(y, 11, 2) \cup Fix(y, 12, 12) \cup Fix(y, 12, 25)

-----------------------------------------------------------------------------
(* United States *)

UsNewYear(y)    == SunToMon(y, 1, 1)
UsMLK(y, from)  == When(y >= from, NthMon(y, 1, 3))
UsWashington(y) == IF y >= 1971 THEN NthMon(y, 2, 3) ELSE Nearest(y, 2, 22)
UsMemorial(y)   == IF y >= 1971 THEN LastMon(y, 5) ELSE Nearest(y, 5, 30)
UsLabor(y)      == NthMon(y, 9, 1)
UsColumbus(y)   == When(y >= 1971, NthMon(y, 10, 2))
\* 1971-1977: fourth Monday of October
UsVeterans(y)      == IF y \in 1971..1977 THEN NthMon(y, 10, 4) ELSE Nearest(y, 11, 11)
UsVeteransNoSat(y) == IF y \in 1971..1977 THEN NthMon(y, 10, 4) ELSE SunToMon(y, 11, 11)
UsJuneteenth(y)      == When(y >= 2022, Nearest(y, 6, 19))
UsJuneteenthNoSat(y) == When(y >= 2022, SunToMon(y, 6, 19))
UsThanksgiving(y) == Nth(y, 11, 4, Thu)

USSettlement(y) ==
  UsNewYear(y) \cup On(y, 12, {31}, {Fri})      \* a Saturday New Year's Day
  \cup UsMLK(y, 1983) \cup UsWashington(y) \cup UsMemorial(y)
  \cup UsJuneteenth(y) \cup Nearest(y, 7, 4) \cup UsLabor(y)
  \cup UsColumbus(y) \cup UsVeterans(y) \cup UsThanksgiving(y)
  \cup Nearest(y, 12, 25)

\* LIBOR ignores, since 2015, an Independence Day that falls on a weekend
USLibor(y) ==
  USSettlement(y)
    \ When(y >= 2015, On(y, 7, {5}, {Mon}) \cup On(y, 7, {3}, {Fri}))

NyseSpecial ==
  { <<2025, 2025, 1, 9, 9>>,     \* President Carter
    <<2018, 2018, 12, 5, 5>>,    \* President Bush
    <<2012, 2012, 10, 29, 30>>,  \* Hurricane Sandy
    <<2007, 2007, 1, 2, 2>>,     \* President Ford
    <<2004, 2004, 6, 11, 11>>,   \* President Reagan
    <<2001, 2001, 9, 11, 14>>,   \* September 11-14
    <<1994, 1994, 4, 27, 27>>,   \* President Nixon
    <<1985, 1985, 9, 27, 27>>,   \* Hurricane Gloria
    <<1977, 1977, 7, 14, 14>>,   \* blackout
    <<1973, 1973, 1, 25, 25>>,   \* President Johnson
    <<1972, 1972, 12, 28, 28>>,  \* President Truman
    <<1969, 1969, 7, 21, 21>>,   \* lunar exploration
    <<1969, 1969, 3, 31, 31>>,   \* President Eisenhower
    <<1969, 1969, 2, 10, 10>>,   \* snow
    <<1968, 1968, 7, 5, 5>>,     \* day after Independence Day
    <<1968, 1968, 4, 9, 9>>,     \* Martin Luther King Jr.
    <<1963, 1963, 11, 25, 25>>,  \* President Kennedy
    <<1961, 1961, 5, 29, 29>>,   \* day before Decoration Day
    <<1958, 1958, 12, 26, 26>>,  \* day after Christmas
    <<1954, 1954, 12, 24, 24>>, <<1956, 1956, 12, 24, 24>>,
    <<1965, 1965, 12, 24, 24>> }

USNYSE(y) ==
  UsNewYear(y) \cup UsMLK(y, 1998) \cup UsWashington(y) \cup GoodFriday(y)
  \cup UsMemorial(y) \cup UsJuneteenth(y) \cup Nearest(y, 7, 4)
  \cup UsLabor(y) \cup UsThanksgiving(y) \cup Nearest(y, 12, 25)
  \cup When(y <= 1968 \/ (y <= 1980 /\ y % 4 = 0), \* presidential elections
            On(y, 11, 1..7, {Tue}))
  \cup Span(NyseSpecial, y)
  \* Paperwork crisis: closed on Wednesdays, 12 June - 31 December 1968
  \cup When(y = 1968, {s \in (BeforeYear(y) + 163)..(BeforeYear(y) + 366) :
                         Dow(s) = Wed})

USGovBondSpecial ==
  { <<2018, 2018, 12, 5, 5>>, <<2025, 2025, 1, 9, 9>>,
    <<2012, 2012, 10, 30, 30>>, <<2004, 2004, 6, 11, 11>> }

\* Good Friday is a full close unless, since 1996, it meets the payrolls release
USGoodFridayBond(y) ==
  {s \in GoodFriday(y) : y < 1996 \/ DayOf(s) > 7}

USGovernmentBond(y) ==
  UsNewYear(y) \cup UsMLK(y, 1983) \cup UsWashington(y)
  \cup USGoodFridayBond(y) \cup UsMemorial(y) \cup UsJuneteenth(y)
  \cup Nearest(y, 7, 4) \cup UsLabor(y) \cup UsColumbus(y)
  \cup UsVeteransNoSat(y) \cup UsThanksgiving(y) \cup Nearest(y, 12, 25)
  \cup Span(USGovBondSpecial, y)

USSOFR(y) == USGovernmentBond(y) \cup GoodFriday(y)

USNERC(y) ==
  UsNewYear(y) \cup UsMemorial(y) \cup SunToMon(y, 7, 4) \cup UsLabor(y)
  \cup UsThanksgiving(y) \cup SunToMon(y, 12, 25)

USFederalReserve(y) ==
  UsNewYear(y) \cup UsMLK(y, 1983) \cup UsWashington(y) \cup UsMemorial(y)
  \cup UsJuneteenthNoSat(y) \cup SunToMon(y, 7, 4) \cup UsLabor(y)
  \cup UsColumbus(y) \cup UsVeteransNoSat(y) \cup UsThanksgiving(y)
  \cup SunToMon(y, 12, 25)
=============================================================================
