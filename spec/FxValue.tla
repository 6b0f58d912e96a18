------------------------------- MODULE FxValue ------------------------------
(***************************************************************************)
(* What an FX forward and an FX vanilla option are worth, and their        *)
(* sensitivities.  r is a scenario: pair, valuation date s, spot, strike,  *)
(* expiry, notional in the foreign or the domestic currency (ccy),         *)
(* direction dir, domestic pillars pil.  pts are the forward points.       *)
(***************************************************************************)
EXTENDS Curve, ForwardPoints, Options

Outright(r, pts) == RAdd(r.spot, RDiv(pts, PointsPerUnit(r.pair)))

\* Notional in the foreign currency; a domestic one converts at the strike
BaseNotional(r) == IF r.ccy = "frn" THEN r.notional ELSE RDiv(r.notional, r.strike)

-----------------------------------------------------------------------------
\* A forward on a domestic notional buys the domestic currency
ForwardUnits(r) ==
  RMul(IF r.ccy = "frn" THEN r.dir ELSE -r.dir, BaseNotional(r))

ForwardValue(r, pts) ==
  RMul(RMul(ForwardUnits(r), RSub(Outright(r, pts), r.strike)),
       Discount(r.pil, r.s, r.expiry))

-----------------------------------------------------------------------------
Variance(r) == RMul(RMul(r.vol, r.vol), Years365(r.s, r.expiry))

\* Premiums are paid by the buyer, in the notional's currency
OptionValue(r, pts) ==
  LET p == Black(r.type, Outright(r, pts), r.strike, Variance(r),
                 Discount(r.pil, r.s, r.expiry))
  IN RMul(RMul(-r.dir, r.notional), RDiv(p, IF r.ccy = "frn" THEN r.spot ELSE r.strike))

OptionDelta(r, pts) ==
  LET f == Outright(r, pts)
      w == Omega(r.type)
      n == IF RLe(Variance(r), 0)
           THEN IF RLt(0, RMul(w, RSub(f, r.strike))) THEN 1 ELSE 0
           ELSE RNormCdf(RMul(w, D1(f, r.strike, Variance(r))))
  IN RMul(RMul(r.dir, BaseNotional(r)), RMul(w, n))

OptionGamma(r, pts) ==
  IF RLe(Variance(r), 0) THEN 0
  ELSE LET f == Outright(r, pts) IN
       RMul(RMul(r.dir, BaseNotional(r)),
            RDiv(RMul(Discount(r.pil, r.s, r.expiry),
                      RNormPdf(D1(f, r.strike, Variance(r)))),
                 RMul(f, RSqrt(Variance(r)))))

\* Per 1% of volatility
OptionVega(r, pts) ==
  IF RLe(Variance(r), 0) THEN 0
  ELSE LET f == Outright(r, pts) IN
       RMul(RMul(RMul(r.dir, r.notional),
                 RDiv("0.01", IF r.ccy = "frn" THEN r.spot ELSE r.strike)),
            RMul(RMul(Discount(r.pil, r.s, r.expiry), f),
                 RMul(RNormPdf(D1(f, r.strike, Variance(r))),
                      RSqrt(Years365(r.s, r.expiry)))))
=============================================================================
