----------------------------- MODULE CalEurope ------------------------------
EXTENDS CalHelpers

NationalDayAT(y) ==
  When(y >= 1967, Fix(y, 10, 26)) \cup When(y \in 1919..1934, Fix(y, 11, 12))

AustriaSettlement(y) ==
  Fix(y, 1, 1) \cup Fix(y, 1, 6) \cup EasterMonday(y) \cup Ascension(y)
  \cup WhitMonday(y) \cup CorpusChristi(y) \cup Fix(y, 5, 1) \cup Fix(y, 8, 15)
  \cup NationalDayAT(y) \cup Fix(y, 11, 1) \cup Fix(y, 12, 8)
  \cup Days(y, 12, {25, 26})

AustriaExchange(y) ==
  Fix(y, 1, 1) \cup GoodFriday(y) \cup EasterMonday(y) \cup WhitMonday(y)
  \cup Fix(y, 5, 1) \cup NationalDayAT(y) \cup Days(y, 12, {24, 25, 26, 31})

CzechRepublic(y) ==
  Fix(y, 1, 1) \cup When(y >= 2016, GoodFriday(y)) \cup EasterMonday(y)
  \cup Days(y, 5, {1, 8}) \cup Days(y, 7, {5, 6}) \cup Fix(y, 9, 28)
  \cup Fix(y, 10, 28) \cup Fix(y, 11, 17) \cup Days(y, 12, {24, 25, 26})
  \cup When(y = 2004, Fix(y, 1, 2) \cup Fix(y, 12, 31))

Denmark(y) ==
  Ea(y, -4) \cup GoodFriday(y) \cup EasterMonday(y)
  \cup When(y <= 2023, Ea(y, 25))           \* General Prayer Day
  \cup Ascension(y) \cup When(y >= 2009, Ea(y, 39)) \cup WhitMonday(y)
  \cup Fix(y, 1, 1) \cup Fix(y, 6, 5) \cup Days(y, 12, {24, 25, 26, 31})

Finland(y) ==
  Days(y, 1, {1, 6}) \cup GoodFriday(y) \cup EasterMonday(y) \cup Ascension(y)
  \cup Fix(y, 5, 1) \cup On(y, 6, 19..25, {Fri}) \cup Days(y, 12, {6, 24, 25, 26})

\* Ascension and Whit Monday are the fixed days QuantLib uses (10 and 21 May)
FranceSettlement(y) ==
  Fix(y, 1, 1) \cup EasterMonday(y) \cup Days(y, 5, {1, 8, 10, 21})
  \cup Fix(y, 7, 14) \cup Fix(y, 8, 15) \cup Days(y, 11, {1, 11}) \cup Fix(y, 12, 25)

FranceExchange(y) ==
  Fix(y, 1, 1) \cup GoodFriday(y) \cup EasterMonday(y) \cup Fix(y, 5, 1)
  \cup Days(y, 12, {24, 25, 26, 31})

GermanySettlement(y) ==
  Fix(y, 1, 1) \cup GoodFriday(y) \cup EasterMonday(y) \cup Ascension(y)
  \cup WhitMonday(y) \cup CorpusChristi(y) \cup Fix(y, 5, 1) \cup Fix(y, 10, 3)
  \cup Days(y, 12, {24, 25, 26})

GermanyFrankfurt(y) ==
  Fix(y, 1, 1) \cup GoodFriday(y) \cup EasterMonday(y) \cup Fix(y, 5, 1)
  \cup Days(y, 12, {24, 25, 26})

GermanyEurex(y) == GermanyFrankfurt(y) \cup Fix(y, 12, 31)
GermanyEuwax(y) == GermanyFrankfurt(y) \cup WhitMonday(y)

Hungary(y) ==
  When(y >= 2017, GoodFriday(y)) \cup EasterMonday(y) \cup WhitMonday(y)
  \cup Fix(y, 1, 1) \cup Fix(y, 3, 15) \cup Fix(y, 5, 1) \cup Fix(y, 8, 20)
  \cup Fix(y, 10, 23) \cup Fix(y, 11, 1) \cup Days(y, 12, {25, 26})

Iceland(y) ==
  Fix(y, 1, 1) \cup Ea(y, -4) \cup GoodFriday(y) \cup EasterMonday(y)
  \cup On(y, 4, 19..25, {Thu}) \cup Ascension(y) \cup WhitMonday(y)
  \cup Fix(y, 5, 1) \cup Fix(y, 6, 17) \cup NthMon(y, 8, 1)
  \cup Days(y, 12, {25, 26})

ItalySettlement(y) ==
  Days(y, 1, {1, 6}) \cup EasterMonday(y) \cup Fix(y, 4, 25) \cup Fix(y, 5, 1)
  \cup When(y >= 2000, Fix(y, 6, 2)) \cup Fix(y, 8, 15) \cup Fix(y, 11, 1)
  \cup Days(y, 12, {8, 25, 26}) \cup When(y = 1999, Fix(y, 12, 31))

ItalyExchange(y) ==
  Fix(y, 1, 1) \cup GoodFriday(y) \cup EasterMonday(y) \cup Fix(y, 5, 1)
  \cup Fix(y, 8, 15) \cup Days(y, 12, {24, 25, 26, 31})

Norway(y) ==
  Ea(y, -4) \cup GoodFriday(y) \cup EasterMonday(y) \cup Ascension(y)
  \cup WhitMonday(y) \cup Fix(y, 1, 1) \cup Days(y, 5, {1, 17})
  \cup When(y >= 2002, Fix(y, 12, 24)) \cup Days(y, 12, {25, 26})

PolandSettlement(y) ==
  EasterMonday(y) \cup CorpusChristi(y) \cup Fix(y, 1, 1)
  \cup When(y >= 2011, Fix(y, 1, 6)) \cup Days(y, 5, {1, 3}) \cup Fix(y, 8, 15)
  \cup Days(y, 11, {1, 11}) \cup Days(y, 12, {25, 26})

PolandWSE(y) == PolandSettlement(y) \cup Days(y, 12, {24, 31})

Romania(y) ==
  Days(y, 1, {1, 2, 24}) \cup Oea(y, 0) \cup Oea(y, 49) \cup Fix(y, 5, 1)
  \cup When(y >= 2017, Fix(y, 6, 1)) \cup Fix(y, 8, 15) \cup Fix(y, 11, 30)
  \cup Days(y, 12, {1, 25, 26})

RussiaExtraSettlement ==
  { <<2017, 2017, 2, 24, 24>>, <<2017, 2017, 5, 8, 8>>, <<2017, 2017, 11, 6, 6>>,
    <<2018, 2018, 3, 9, 9>>, <<2018, 2018, 4, 30, 30>>, <<2018, 2018, 5, 2, 2>>,
    <<2018, 2018, 6, 11, 11>>, <<2018, 2018, 12, 31, 31>>,
    <<2019, 2019, 5, 2, 3>>, <<2019, 2019, 5, 9, 9>>,
    <<2020, 2020, 3, 30, 31>>, <<2020, 2020, 4, 1, 3>> }

RussiaSettlement(y) ==
  Span(RussiaExtraSettlement, y)
  \cup Days(y, 1, IF y < 2005 THEN 1..2 ELSE 1..5)
  \cup When(y = 2012, Fix(y, 1, 6))
  \cup ToMon(y, 1, 7) \cup ToMon(y, 2, 23) \cup ToMon(y, 3, 8)
  \cup ToMon(y, 5, 1) \cup ToMon(y, 5, 9) \cup ToMon(y, 6, 12) \cup ToMon(y, 11, 4)

RussiaExtraExchange ==
  { <<2012, 2012, 1, 2, 2>>, <<2012, 2012, 3, 9, 9>>, <<2012, 2012, 4, 30, 30>>,
    <<2012, 2012, 6, 11, 11>>,
    <<2013, 2013, 1, 1, 4>>, <<2013, 2013, 1, 7, 7>>,
    <<2014, 2014, 1, 1, 3>>, <<2014, 2014, 1, 7, 7>>,
    <<2015, 2015, 1, 1, 2>>, <<2015, 2015, 1, 7, 7>>,
    <<2016, 2016, 1, 1, 1>>, <<2016, 2016, 1, 7, 8>>, <<2016, 2016, 5, 2, 3>>,
    <<2016, 2016, 6, 13, 13>>, <<2016, 2016, 12, 30, 30>>,
    <<2017, 2017, 1, 2, 2>>, <<2017, 2017, 5, 8, 8>>,
    <<2018, 2018, 1, 1, 2>>, <<2018, 2018, 1, 8, 8>>, <<2018, 2018, 12, 31, 31>>,
    <<2019, 2019, 1, 1, 2>>, <<2019, 2019, 1, 7, 7>>, <<2019, 2019, 12, 31, 31>>,
    <<2020, 2020, 1, 1, 2>>, <<2020, 2020, 1, 7, 7>>, <<2020, 2020, 2, 24, 24>>,
    <<2020, 2020, 6, 24, 24>>, <<2020, 2020, 7, 1, 1>> }

RussiaExchange(y) ==
  Span(RussiaExtraExchange, y) \cup Fix(y, 2, 23) \cup ToMon(y, 3, 8)
  \cup Fix(y, 5, 1) \cup ToMon(y, 5, 9) \cup Fix(y, 6, 12) \cup ToMon(y, 11, 4)
  \cup Fix(y, 12, 31)

\* Weekend days on which the Moscow exchange is open
RussiaWorkingWeekend(y) ==
  Span({ <<2012, 2012, 3, 11, 11>>, <<2012, 2012, 4, 28, 28>>,
         <<2012, 2012, 5, 5, 5>>, <<2012, 2012, 5, 12, 12>>,
         <<2012, 2012, 6, 9, 9>>, <<2016, 2016, 2, 20, 20>>,
         <<2018, 2018, 4, 28, 28>>, <<2018, 2018, 6, 9, 9>>,
         <<2018, 2018, 12, 29, 29>> }, y)

Slovakia(y) ==
  Days(y, 1, {1, 6}) \cup GoodFriday(y) \cup EasterMonday(y)
  \cup Days(y, 5, {1, 8}) \cup Fix(y, 7, 5) \cup Fix(y, 8, 29)
  \cup Days(y, 9, {1, 15}) \cup Days(y, 11, {1, 17}) \cup Days(y, 12, {24, 25, 26})
  \cup When(y \in {2004, 2005}, Days(y, 12, 24..31))

Sweden(y) ==
  GoodFriday(y) \cup EasterMonday(y) \cup Ascension(y)
  \cup (IF y < 2005 THEN WhitMonday(y) ELSE Fix(y, 6, 6))
  \cup Days(y, 1, {1, 6}) \cup Fix(y, 5, 1) \cup On(y, 6, 19..25, {Fri})
  \cup Days(y, 12, {24, 25, 26, 31})

Switzerland(y) ==
  Days(y, 1, {1, 2}) \cup GoodFriday(y) \cup EasterMonday(y) \cup Ascension(y)
  \cup WhitMonday(y) \cup Fix(y, 5, 1) \cup Fix(y, 8, 1) \cup Days(y, 12, {25, 26})

Target(y) ==
  Fix(y, 1, 1) \cup Fix(y, 12, 25)
  \cup When(y >= 2000, GoodFriday(y) \cup EasterMonday(y) \cup Fix(y, 5, 1)
                       \cup Fix(y, 12, 26))
  \cup When(y \in {1998, 1999, 2001}, Fix(y, 12, 31))

Ukraine(y) ==
  ToMon(y, 1, 1) \cup ToMon(y, 1, 7) \cup ToMon(y, 3, 8)
  \cup Oea(y, 0) \cup Oea(y, 49)
  \cup Days(y, 5, {1, 2}) \cup On(y, 5, {3}, {Mon}) \cup ToMon(y, 5, 9)
  \cup Fix(y, 6, 28) \cup Fix(y, 8, 24) \cup When(y >= 2015, Fix(y, 10, 14))

UnitedKingdom(y) ==
  ToMon(y, 1, 1) \cup GoodFriday(y) \cup EasterMonday(y)
  \* Early May Bank Holiday; V.E. day anniversaries
  \cup (IF y \in {1995, 2020} THEN Fix(y, 5, 8) ELSE NthMon(y, 5, 1))
  \* Spring Bank Holiday; jubilees
  \cup (CASE y = 2002 -> Days(y, 6, {3, 4})
          [] y = 2012 -> Days(y, 6, {4, 5})
          [] y = 2022 -> Days(y, 6, {2, 3})
          [] OTHER -> LastMon(y, 5))
  \cup LastMon(y, 8)
  \cup XmasShift(y) \cup BoxingShift(y)
  \cup Span({ <<2011, 2011, 4, 29, 29>>, <<2022, 2022, 9, 19, 19>>,
              <<2023, 2023, 5, 8, 8>>, <<1999, 1999, 12, 31, 31>> }, y)
=============================================================================
