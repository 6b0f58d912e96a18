------------------------------- MODULE FxDates ------------------------------
(***************************************************************************)
(* The conventions of a currency pair, and the dates on which it settles.  *)
(***************************************************************************)
EXTENDS BusinessDays

HomeCalendar(ccy) ==
  CASE ccy = "EUR" -> "Target"      [] ccy = "GBP" -> "UnitedKingdom"
    [] ccy = "USD" -> "UnitedStates" [] ccy = "JPY" -> "Japan"
    [] ccy = "CAD" -> "Canada"      [] ccy = "AUD" -> "Australia"
    [] ccy = "NZD" -> "NewZealand"  [] ccy = "CHF" -> "Switzerland"
    [] ccy = "NOK" -> "Norway"      [] ccy = "SEK" -> "Sweden"
    [] ccy = "MXN" -> "Mexico"      [] ccy = "TRY" -> "Turkey"
    [] ccy = "RUB" -> "Russia"      [] ccy = "SGD" -> "Singapore"
    [] ccy = "HKD" -> "HongKong"    [] ccy = "CNY" -> "China"
    [] ccy = "PLN" -> "Poland"      [] ccy = "HUF" -> "Hungary"
    [] ccy = "CZK" -> "CzechRepublic" [] ccy = "ZAR" -> "SouthAfrica"
    [] ccy = "KRW" -> "SouthKorea"  [] ccy = "INR" -> "India"
    [] ccy = "BRL" -> "Brazil"      [] ccy = "DKK" -> "Denmark"
    [] ccy = "IDR" -> "Indonesia"   [] ccy = "TWD" -> "Taiwan"
    [] ccy = "THB" -> "Thailand"    [] ccy = "ILS" -> "Israel"
    [] ccy = "RON" -> "Romania"

Base(pair)  == SubSeq(pair, 1, 3)       \* the foreign currency
Quote(pair) == SubSeq(pair, 4, 6)       \* the domestic currency

SpotLag(pair) == IF pair \in {"USDCAD", "USDMXN", "USDTRY", "USDRUB"} THEN 1 ELSE 2

\* Seconds after midnight UTC from which the next business day is meant
CutOff(pair) ==
  CASE pair \in {"USDCAD", "USDMXN"} -> 17 * 3600
    [] pair = "USDTRY" -> 9 * 3600
    [] pair = "USDRUB" -> 9 * 3600 + 1800
    [] OTHER -> 22 * 3600

PointsPerUnit(pair) == IF Quote(pair) = "JPY" THEN 100 ELSE 10000

MoneyBasis(pair) == IF pair \in {"EURUSD", "USDJPY"} THEN 360 ELSE 365

EffectiveDate(B(_), pair, s, seconds) ==
  IF seconds >= CutOff(pair) THEN NextB(B, s + 1) ELSE s

\* The far leg: from today, tomorrow or spot by the tenor, held at the last
\* business day of its month, otherwise rolled forward
FarDate(B(_), s, p, lag) ==
  LET from == CASE p[1] = "ON" -> s [] p[1] = "TN" -> s + 1 [] OTHER -> s + lag
      raw  == Plus(from, p)
      last == LastBusinessDayOfMonth(B, raw)
  IN  IF raw >= last THEN last ELSE NextB(B, raw)

\* The near leg of the swaps that settle before spot; -1 for other tenors
NearDate(B(_), s, p, lag) ==
  CASE p[1] = "ON" -> NextB(B, s)
    [] p[1] = "TN" -> NextB(B, s + 1)
    [] p[1] = "SN" -> NextB(B, s + lag)
    [] OTHER -> -1
=============================================================================
