------------------------------ MODULE Calendars -----------------------------
(***************************************************************************)
(* The business days of every supported calendar and market.               *)
(***************************************************************************)
EXTENDS CalAmericas, CalEurope, CalSouth, CalAsia

\* Which market an unspecified market stands for
DefaultMarket(c) ==
  CASE c = "Australia" -> "Australia.Settlement"
    [] c = "Austria" -> "Austria.Settlement"
    [] c = "Brazil" -> "Brazil.Settlement"
    [] c = "Canada" -> "Canada.Settlement"
    [] c = "France" -> "France.Settlement"
    [] c = "Germany" -> "Germany.FrankfurtStockExchange"
    [] c = "Israel" -> "Israel.Shir"
    [] c = "Italy" -> "Italy.Settlement"
    [] c = "NewZealand" -> "NewZealand.Wellington"
    [] c = "Poland" -> "Poland.Settlement"
    [] c = "Russia" -> "Russia.Settlement"
    [] c = "UnitedKingdom" -> "UnitedKingdom.Settlement"
    [] c = "UnitedStates" -> "UnitedStates.Settlement"
    [] OTHER -> c

MarketHolidays(c, y) ==
  CASE c = "Argentina" -> Argentina(y)
    [] c = "Australia.Settlement" -> AustraliaSettlement(y)
    [] c = "Australia.ASX" -> AustraliaASX(y)
    [] c = "Austria.Settlement" -> AustriaSettlement(y)
    [] c = "Austria.Exchange" -> AustriaExchange(y)
    [] c = "Botswana" -> Botswana(y)
    [] c = "Brazil.Settlement" -> BrazilSettlement(y)
    [] c = "Brazil.Exchange" -> BrazilExchange(y)
    [] c = "Canada.Settlement" -> CanadaSettlement(y)
    [] c = "Canada.TSX" -> CanadaTSX(y)
    [] c = "Chile" -> Chile(y)
    [] c = "China" -> China(y)
    [] c = "CzechRepublic" -> CzechRepublic(y)
    [] c = "Denmark" -> Denmark(y)
    [] c = "Finland" -> Finland(y)
    [] c = "France.Settlement" -> FranceSettlement(y)
    [] c = "France.Exchange" -> FranceExchange(y)
    [] c = "Germany.Settlement" -> GermanySettlement(y)
    [] c \in {"Germany.FrankfurtStockExchange", "Germany.Xetra"} -> GermanyFrankfurt(y)
    [] c = "Germany.Eurex" -> GermanyEurex(y)
    [] c = "Germany.Euwax" -> GermanyEuwax(y)
    [] c = "HongKong" -> HongKong(y)
    [] c = "Hungary" -> Hungary(y)
    [] c = "Iceland" -> Iceland(y)
    [] c = "India" -> India(y)
    [] c = "Indonesia" -> Indonesia(y)
    [] c = "Israel.TelAviv" -> IsraelTelAviv(y)
    [] c = "Israel.Shir" -> IsraelShir(y)
    [] c = "Italy.Settlement" -> ItalySettlement(y)
    [] c = "Italy.Exchange" -> ItalyExchange(y)
    [] c = "Japan" -> Japan(y)
    [] c = "Mexico" -> Mexico(y)
    [] c = "NewZealand.Wellington" -> NewZealandWellington(y)
    [] c = "NewZealand.Auckland" -> NewZealandAuckland(y)
    [] c = "Norway" -> Norway(y)
    [] c = "Poland.Settlement" -> PolandSettlement(y)
    [] c = "Poland.WSE" -> PolandWSE(y)
    [] c = "Romania" -> Romania(y)
    [] c = "Russia.Settlement" -> RussiaSettlement(y)
    [] c = "Russia.Exchange" -> RussiaExchange(y)
    [] c = "Singapore" -> Singapore(y)
    [] c = "Slovakia" -> Slovakia(y)
    [] c = "SouthAfrica" -> SouthAfrica(y)
    [] c = "SouthKorea" -> SouthKorea(y)
    [] c = "Sweden" -> Sweden(y)
    [] c = "Switzerland" -> Switzerland(y)
    [] c = "Taiwan" -> Taiwan(y)
    [] c = "Target" -> Target(y)
    [] c = "Thailand" -> Thailand(y)
    [] c = "Turkey" -> Turkey(y)
    [] c = "Ukraine" -> Ukraine(y)
    [] c \in {"UnitedKingdom.Settlement", "UnitedKingdom.Exchange",
              "UnitedKingdom.Metals"} -> UnitedKingdom(y)
    [] c = "UnitedStates.Settlement" -> USSettlement(y)
    [] c = "UnitedStates.Libor" -> USLibor(y)
    [] c = "UnitedStates.NYSE" -> USNYSE(y)
    [] c = "UnitedStates.GovernmentBond" -> USGovernmentBond(y)
    [] c = "UnitedStates.SOFR" -> USSOFR(y)
    [] c = "UnitedStates.NERC" -> USNERC(y)
    [] c = "UnitedStates.FederalReserve" -> USFederalReserve(y)
    [] c = "WeekendsOnly" -> {}

Holidays(c, y) == MarketHolidays(DefaultMarket(c), y)

\* Weekend days on which the market is open all the same
OpenWeekends(c, y) ==
  IF DefaultMarket(c) = "Russia.Exchange" THEN RussiaWorkingWeekend(y) ELSE {}

IsWeekend(s) == Dow(s) \in {Sat, Sun}

IsBusinessDay(c, s) ==
  LET y == YearOf(s) IN
  s \in OpenWeekends(c, y) \/ (~IsWeekend(s) /\ s \notin Holidays(c, y))

\* Weekdays of year y on which c is closed, as days of the year
ClosedWeekdays(c, y) ==
  {s - BeforeYear(y) :
     s \in {t \in Holidays(c, y) : ~IsWeekend(t) /\ YearOf(t) = y}}
OpenWeekendDays(c, y) == {s - BeforeYear(y) : s \in OpenWeekends(c, y)}
=============================================================================
