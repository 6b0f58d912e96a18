----------------------------- MODULE MarketTrace ----------------------------
(* P10 to P13, P15 to P20 and P24: market objects and values, on what the  *)
(* code did.                                                               *)
EXTENDS FxValue, FxSmile, Caps, Imm, Calendars, Judging, TraceCore

-----------------------------------------------------------------------------
JudgePoints(r) ==
  LET x == ToSet(r.x)
      B(s) == PatternOpen(r.we, x, s) IN
  \A i \in 1..Len(r.q) :
    LET t == r.q[i][1]
        got == r.q[i][2]
        want == PointsAt(B, r.s, r.quotes, r.lag, t) IN
    Report(\E w \in want : IF Word(w) \/ Word(got) THEN w = got
                           ELSE RClose(got, w, "1e-12", "1e-11"),
           "forward points " \o ToString(<<r.pair, r.s, t, r.quotes, r.x>>),
           "the code gave " \o got \o ", the rules " \o ToString(want))

-----------------------------------------------------------------------------
\* The relative tolerance of values, and the absolute one per unit of notional
VTol == "1e-9"
\* (the normal distribution function the code uses is good to some 1e-10)
ATol(notional) == RMul("1e-9", RAdd(1, notional))

DomesticOf(r) == Quote(r.pair)
ForeignOf(r)  == Base(r.pair)

JudgeValue(r) ==
  IF r.k = "formula" THEN
    LET key == "option formula " \o ToString(<<r.f, r.strike, r.v, r.df>>)
        PTol == RMul("1e-10", RAdd(r.f, r.strike)) IN
    /\ Near(key \o " call", r.call, Black("call", r.f, r.strike, r.v, r.df), VTol, PTol)
    /\ Near(key \o " put", r.put, Black("put", r.f, r.strike, r.v, r.df), VTol, PTol)
  ELSE
  LET x == ToSet(r.x)
      B(s) == PatternOpen(r.we, x, s)
      pts == CHOOSE w \in PointsAt(B, r.s, r.quotes, r.lag, r.expiry) : TRUE
      unique == Cardinality(PointsAt(B, r.s, r.quotes, r.lag, r.expiry)) = 1
      out == pts = "none"
      key == r.k \o " " \o ToString(<<r.pair, r.s, r.expiry, r.ccy, r.dir, r.strike, r.notional>>)
      Val(what, got, want, ccy) ==
        IF out THEN Same(key \o what, got, <<"expired", "none">>)
        ELSE /\ Near(key \o what, got[1], want, VTol, ATol(r.notional))
             /\ Same(key \o what \o " currency", got[2], ccy)
      Num(what, got, want) ==
        IF out THEN Same(key \o what, got, "error")
        ELSE Near(key \o what, got, want, VTol, ATol(r.notional))
  IN unique =>
  IF r.k = "forward" THEN
    /\ Val(" value", r.mtm, ForwardValue(r, pts), DomesticOf(r))
    /\ Near(key \o " delta", r.delta[1], ForwardUnits(r), VTol, 0)
    /\ Same(key \o " delta currency", r.delta[2], ForeignOf(r))
    /\ Near(key \o " gamma", r.gamma, 0, 0, 0)
    /\ Near(key \o " vega", r.vega, 0, 0, 0)
    /\ Near(key \o " outright", r.outright, IF out THEN "error" ELSE Outright(r, pts), VTol, "1e-12")
    /\ Near(key \o " domestic rate", r.rates[1], Zero(r.pil, r.expiry), VTol, "1e-13")
    /\ Near(key \o " foreign rate", r.rates[2], Zero(r.pil2, r.expiry), VTol, "1e-13")
    /\ Near(key \o " domestic discount", r.rates[3], Discount(r.pil, r.s, r.expiry), VTol, "1e-13")
    /\ Near(key \o " foreign discount", r.rates[4], Discount(r.pil2, r.s, r.expiry), VTol, "1e-13")
  ELSE
    /\ Val(" value", r.mtm, OptionValue(r, pts), IF r.ccy = "frn" THEN ForeignOf(r) ELSE DomesticOf(r))
    /\ Val(" delta", r.delta, OptionDelta(r, pts), ForeignOf(r))
    /\ Num(" gamma", r.gamma, OptionGamma(r, pts))
    /\ Num(" vega", r.vega, OptionVega(r, pts))

JudgeForward(r) == r.k = "forward" => JudgeValue(r)
JudgeOption(r)  == r.k # "forward" => JudgeValue(r)

-----------------------------------------------------------------------------
JudgeCurve(r) ==
  /\ \A i \in 1..Len(r.q) :
       LET q == r.q[i]
           key == ToString(<<r.s, q[1], r.pil>>)
           z == Zero(r.pil, q[1])
           d == Discount(r.pil, r.s, q[1]) IN
       /\ Near("zero rate " \o key, q[2], z, "1e-11", "1e-14")
       /\ Near("zero rate (linear) " \o key, q[3], z, "1e-11", "1e-14")
       /\ Near("discount " \o key, q[4], d, "1e-11", 0)
       /\ Near("discount (linear) " \o key, q[5], d, "1e-11", 0)
       /\ Near("shifted discount " \o r.bp \o " " \o key, q[6],
               ShiftedDiscount(r.pil, r.s, q[1], r.bp), "1e-11", 0)
  /\ \A i \in 1..Len(r.f) :
       LET q == r.f[i] IN
       Near("forward rate " \o ToString(<<r.s, q[1], q[2], r.pil>>), q[3],
            ForwardRate(r.pil, r.s, q[1], Plus(q[1], q[2])), "1e-9", "1e-10")

-----------------------------------------------------------------------------
JudgeSchedule(r) ==
  LET x == ToSet(r.x)
      B(s) == PatternOpen(r.we, x, s)
      a == Schedule(B, r.s, r.a)
      b == Schedule(B, r.s, r.b)
      key == ToString(<<r.s, r.a, r.x>>)
      Dates(rows) == [i \in 1..Len(rows) |-> SubSeq(rows[i], 1, 4)]
  IN /\ Same("schedules made " \o key, r.ok, <<TRUE, TRUE>>)
     /\ Same("effective date " \o key, <<r.eff, r.settle>>,
             <<Effective(B, r.s, r.a), Effective(B, r.s, r.a)>>)
     /\ Same("schedule " \o key, Dates(r.rows), a)
     /\ Same("schedule " \o ToString(<<r.s, r.b, r.x>>), Dates(r.rows2), b)
     /\ \A i \in 1..Len(r.rows) : Near("balance " \o key, r.rows[i][5], r.notional, 0, 0)
     /\ (a # <<>> /\ b # <<>>) =>
          Same("maturity " \o key, r.maturity, MaxI(a[Len(a)][2], b[Len(b)][2]))
     /\ Same("given schedule " \o key, r.kept, TRUE)

-----------------------------------------------------------------------------
(* The pillars of a bootstrap: <<settle, date, quote, zero, discount,      *)
(* source, hidden>>.                                                       *)
CashSettle(B(_), s, c)   == Advance(B, s, <<"D", c[3]>>, c[4], c[6])
CashMaturity(B(_), s, c) == Advance(B, CashSettle(B, s, c), c[2], c[4], c[6])
TauOf(dc, a, b) == SumParts(YearParts(dc, a, b, b))

Consistent(s, p, key) ==
  Near(key \o " discount agrees with the zero rate", p[5],
       RExp(RNeg(RMul(p[4], Years365(s, p[2])))), "1e-9", 0)

JudgeCash(r, B(_)) ==
  LET n == Len(r.cash)
      key == ToString(<<r.s, r.cash, r.x>>)
      want == [i \in 1..n |-> <<CashSettle(B, r.s, r.cash[i]), CashMaturity(B, r.s, r.cash[i]),
                                r.cash[i][1], "OIS", r.cash[i][2] = <<"W", 1>> >>]
      got == [i \in 1..n |-> LET p == r.pillars[i] IN <<p[1], p[2], p[3], p[6], p[7]>>]
  IN /\ Same("cash pillars " \o key, ToSet(got), ToSet(want))
     /\ Report(\A i \in 1..(n - 1) : got[i][2] <= got[i + 1][2], "order of cash pillars " \o key,
               "maturities " \o ToString([i \in 1..n |-> got[i][2]]))
     /\ \A i \in 1..n : \A j \in 1..n :
          want[j] = got[i] =>
            LET p == r.pillars[i]
                acc == RAdd(1, RMul(r.cash[j][1], TauOf(r.cash[j][5], p[1], p[2]))) IN
            /\ Near("cash zero rate " \o ToString(<<r.s, r.cash[j], r.x>>), p[4],
                    RDiv(RLn(acc), Years365(p[1], p[2])), "1e-10", "1e-13")
            /\ Consistent(r.s, p, "cash pillar " \o ToString(<<r.s, r.cash[j], r.x>>))

\* The pillars stripped before it, the one nearest to a futures' settlement
Distance(p, d) == AbsI(p[2] - d)
Closest(pillars, d) ==
  {i \in DOMAIN pillars : \A j \in DOMAIN pillars : Distance(pillars[i], d) <= Distance(pillars[j], d)}

JudgeFutures(r, B(_)) ==
  \A j \in 1..Len(r.futures) :
    LET f == r.futures[j]
        at == Len(r.cash) + j
        p == r.pillars[at]
        earlier == SubSeq(r.pillars, 1, at - 1)
        key == ToString(<<r.s, f, r.x>>)
        target == Advance(B, f[7], f[4], f[5], FALSE)
        maturity == NextImm(FirstOfMonth(target), FALSE)
        implied == RAdd(RSub(1, RDiv(f[1], 100)), RDiv(f[3], 100))
        own == RDiv(1, RAdd(1, RMul(implied, TauOf(f[6], f[7], maturity))))
        near == Closest(earlier, f[7])
        Disc(i) == RMul(own, RExp(RNeg(RMul(earlier[i][4], Years365(r.s, f[7])))))
        \* what the first of them is stripped to: the forward from the last cash pillar
        chain == RSum([i \in 1..(at - 1) |->
                   RMul(earlier[i][4], Years365(IF i = 1 THEN r.s ELSE earlier[i - 1][2], earlier[i][2]))])
        quirk == RDiv(RNeg(RAdd(RLn(p[5]), chain)), Years365(earlier[at - 1][2], maturity))
    IN /\ Same("futures pillar " \o key, <<p[1], p[2], p[6], p[7]>>, <<f[7], maturity, "Futures", FALSE>>)
       /\ Near("futures quote " \o key, p[3], f[1], 0, 0)
       /\ Report(\E i \in near : RClose(p[5], Disc(i), "1e-9", 0), "futures discount " \o key,
                 "the code gave " \o p[5] \o ", the rules " \o ToString({Disc(i) : i \in near}))
       /\ IF j = 1 /\ ~RClose(p[5], RExp(RNeg(RMul(p[4], Years365(r.s, p[2])))), "1e-9", 0)
                    /\ RClose(p[4], quirk, "1e-8", "1e-9")
          THEN Report(FALSE, "first futures zero rate is the forward from the last cash pillar",
                      key \o " gave " \o p[4])
          ELSE Consistent(r.s, p, "futures pillar " \o key)

JudgeSwapPillars(r) ==
  \A j \in 1..Len(r.swaps) :
    LET w == r.swaps[j]
        at == Len(r.cash) + Len(r.futures) + j
        p == r.pillars[at]
        pil == SubSeq(r.curve, 1, at)
        key == ToString(<<r.s, w.legs[1].rate, w.legs[1].dir, w.maturity, r.cash>>)
    IN /\ Same("swap pillar " \o key, <<p[1], p[2], p[6], p[7]>>, <<w.settle, w.maturity, "Swap", FALSE>>)
       /\ w.legs[1].type = "fixed" => Near("swap quote " \o key, p[3], w.legs[1].rate, 0, 0)
       /\ Near("value of the swap on its own curve " \o key, SwapValue(pil, r.s, w.legs, 0), 0, 0, "1e-3")
       /\ Consistent(r.s, p, "swap pillar " \o key)

JudgeBootstrap(r) ==
  LET x == ToSet(r.x)
      B(s) == PatternOpen(r.we, x, s)
      key == ToString(<<r.s, r.cash, r.futures, r.x>>)
  IN /\ Same("bootstrap " \o key, r.how, "ok")
     /\ r.how = "ok" =>
          IF Len(r.pillars) # Len(r.cash) + Len(r.futures) + Len(r.swaps)
          THEN Same("pillars " \o key, Len(r.pillars), Len(r.cash) + Len(r.futures) + Len(r.swaps))
          ELSE JudgeCash(r, B) /\ JudgeFutures(r, B) /\ JudgeSwapPillars(r)

-----------------------------------------------------------------------------
\* Differences of values cancel most of their digits
DTol(r) == RMul("1e-12", RAdd(1, RMul(20, r.notional)))

Duration(pv, dv01) ==
  IF RLt(RAbs(pv), "1e-12") THEN 0 ELSE RDiv(RMul(RNeg(dv01), "1e4"), pv)

JudgeSwap(r) ==
  LET V(bp) == SwapValue(r.pil, r.s, r.legs, bp)
      key == ToString(<<r.s, r.pil, r.legs>>)
      dv01 == RSub(V(1), V(0))
      ccy == IF r.legs = <<>> THEN "none" ELSE r.legs[1].ccy
  IN /\ \A i \in 1..Len(r.legs) :
          Same("kind and rate of leg " \o ToString(i) \o " " \o key, r.legs[i].says,
               <<r.legs[i].type = "fixed", r.legs[i].rate>>)
     /\ Near("swap value " \o key, r.npv, V(0), "1e-9", DTol(r))
     /\ IF r.legs = <<>> THEN Same("value of a swap without legs", r.mtm, <<"error", "none">>)
        ELSE /\ Near("swap mtm " \o key, r.mtm[1], V(0), "1e-9", DTol(r))
             /\ Same("swap currency " \o key, r.mtm[2], ccy)
             /\ RLt(RMul("1e-6", r.notional), RAbs(V(0))) =>
                  Near("swap duration " \o key, r.dur, Duration(V(0), dv01), "1e-4", "1e-4")
     /\ Near("swap dv01 " \o key, r.dv01, dv01, "1e-7", DTol(r))
     /\ Near("swap gamma " \o r.bp \o " " \o key, r.gamma,
             RSub(RAdd(V(r.bp), V(RNeg(r.bp))), RMul(2, V(0))), "1e-7", DTol(r))
     /\ Same("swap gamma by other shifts " \o key, r.modes, <<"error", "error", "error">>)
     /\ Near("swap vega " \o key, r.vega, 0, 0, 0)

-----------------------------------------------------------------------------
JudgeCap(r) ==
  LET V(bp, vbp) == CapValue(r, bp, vbp)
      key == ToString(<<r.kind, r.style, r.dir, r.strike, r.s, r.surf, r.rows, r.pil>>)
      base == V(0, 0)
      dv01 == RSub(V(1, 0), base)
  IN /\ Near("cap value " \o key, r.mtm[1], base, "1e-8", DTol(r))
     /\ \A i \in 1..Len(r.variances) :
          LET v == r.variances[i] IN
          Near("variance of a rate " \o ToString(v), v[5], VarianceOver(v[1], v[2], v[3], v[4]), "1e-11", "1e-25")
     /\ Same("cap currency " \o key, r.mtm[2], r.ccy)
     /\ Near("cap dv01 " \o key, r.dv01, dv01, "1e-6", DTol(r))
     /\ Near("cap gamma " \o r.bp \o " " \o key, r.gamma,
             RSub(RAdd(V(r.bp, 0), V(RNeg(r.bp), 0)), RMul(2, base)), "1e-5", DTol(r))
     /\ Near("cap vega " \o r.vbp \o " " \o key, r.vega, RSub(V(0, r.vbp), base), "1e-6", DTol(r))
     /\ Same("cap gamma by other shifts " \o key, r.modes, <<"error", "error", "error">>)
     /\ Same("cap without volatilities " \o key, r.missing,
             <<"error", "error", "error", "error", "error">>)
     /\ RLt(RMul("1e-6", r.notional), RAbs(base)) =>
          Near("cap duration " \o key, r.dur, Duration(base, dv01), "1e-4", "1e-4")

JudgeCapSurface(r) ==
  /\ \A i \in 1..Len(r.q) :
       Near("caplet volatility " \o ToString(<<r.q[i][1], r.q[i][2], r.surf>>), r.q[i][3],
            CapletVol(r.surf, r.q[i][1], r.q[i][2]), "1e-11", "1e-15")
  /\ Near("context's caplet volatility " \o ToString(<<r.s, r.strike, r.surf>>), r.via,
          CapletVol(r.surf, r.s + 100, r.strike), "1e-11", "1e-15")
  /\ Near("context's rate " \o ToString(<<r.s, r.pil>>), r.ctx[2], Zero(r.pil, r.ctx[1]), "1e-11", "1e-14")
  /\ Near("context's discount " \o ToString(<<r.s, r.pil>>), r.ctx[3], Discount(r.pil, r.s, r.ctx[1]), "1e-11", 0)
  /\ Same("volatility of an empty surface", r.empty, "error")

\* A strike's quotes are stripped one after another, by last fixing; each one
\* is repriced by the volatilities of its strike's own segments
JudgeStrip(r) ==
  LET q == r.quotes
      key == ToString(<<r.s, r.style, q>>)
      LastStart(j) == q[j].rows[Len(q[j].rows)][1]
      strikes == {q[j].strike : j \in DOMAIN q}
      Of0(k) == {j \in DOMAIN q : q[j].strike = k}
      expiries == {LastStart(j) : j \in DOMAIN q}
      pillar(e) == r.surf[CHOOSE i \in DOMAIN r.surf : r.surf[i][1] = e]
      sigma(k, e) == LET nodes == pillar(e)[2] IN
                     nodes[CHOOSE i \in DOMAIN nodes : nodes[i][1] = k][2]
      \* the segment of strike k that covers a fixing
      seg(k, d) == LET es == {LastStart(j) : j \in Of0(k)} IN
                   CHOOSE e \in es : d <= e /\ \A f \in es : d <= f => e <= f
      price(j) ==
        RMul(RMul(q[j].dir, q[j].notional),
             RSum([i \in 1..Len(q[j].rows) |->
               Caplet(r.pil, r.s, q[j].kind, r.style, r.dc, q[j].strike, q[j].rows[i],
                      sigma(q[j].strike, seg(q[j].strike, q[j].rows[i][1])), 0)]))
      \* strikes with a quote at or before e take part in e's pillar
      StrikesAt(e) == {k \in strikes : \E j \in Of0(k) : LastStart(j) <= e}
      latest(k, e) == CHOOSE f \in {LastStart(j) : j \in Of0(k)} :
                        f <= e /\ \A j \in Of0(k) : LastStart(j) <= e => LastStart(j) <= f
      shape == /\ Len(r.surf) = Cardinality(expiries)
               /\ {r.surf[i][1] : i \in DOMAIN r.surf} = expiries
               /\ \A i \in 1..(Len(r.surf) - 1) : r.surf[i][1] < r.surf[i + 1][1]
               /\ \A i \in DOMAIN r.surf :
                    LET nodes == r.surf[i][2] IN
                    /\ Len(nodes) = Cardinality(StrikesAt(r.surf[i][1]))
                    /\ {nodes[n][1] : n \in DOMAIN nodes} = StrikesAt(r.surf[i][1])
                    /\ \A n \in 1..(Len(nodes) - 1) : RLt(nodes[n][1], nodes[n + 1][1])
  IN IF r.spoil THEN Same("strip of an impossible price " \o key, r.how, "error")
     ELSE /\ r.weak \/ Same("strip " \o key, r.how, "ok")
          /\ r.how = "ok" =>
               /\ Same("valuation date of the strip " \o key, r.val, r.s)
               /\ Report(shape, "shape of the strip " \o key, ToString(r.surf))
               /\ shape =>
                    /\ \A e \in expiries : \A k \in StrikesAt(e) :
                         Near("carried volatility " \o ToString(<<e, k>>) \o key, sigma(k, e),
                              sigma(k, latest(k, e)), 0, 0)
                    /\ \A j \in DOMAIN q :
                         Near("repriced quote " \o ToString(q[j]) \o key, price(j), q[j].npv,
                              "1e-7", RMul("1e-8", RAdd("0.1", q[j].notional)))

-----------------------------------------------------------------------------
JudgeSmile(r) ==
  LET valid == Len(r.pillars) > 0 /\ \A i \in 1..Len(r.pillars) : PillarValid(r.s, r.pillars[i])
      key == ToString(<<r.s, r.pillars>>)
      smiles == [i \in 1..Len(r.pillars) |-> Smile(r.s, r.pillars[i])]
  IN /\ Same("surface " \o key, r.how, IF valid THEN "ok" ELSE "error")
     /\ (valid /\ r.how = "ok") =>
          /\ \A i \in 1..Len(r.q) :
               LET e == r.q[i][1]  k == r.q[i][2] IN
               Near("volatility " \o ToString(<<e, k>>) \o key, r.q[i][3],
                    SurfaceVol(r.s, smiles, e, k), "1e-8", "1e-10")

-----------------------------------------------------------------------------
IndexRule(r) ==
  LET money == RDiv(360, 360)
      year == RDiv(360, 365)
      Is(n) == r.name = n
      term == SubSeq(r.name, 1, 4)
  IN CASE Is("AONIA") -> <<"AUD", "Australia", "MF", 0, year, <<"SPOT", 0>> >>
       [] Is("EONIA") \/ Is("ESTR") -> <<"EUR", "Target", "MF", 0, money, <<"SPOT", 0>> >>
       [] Is("SONIA") -> <<"GBP", "UnitedKingdom.Exchange", "MF", 0, year, <<"SPOT", 0>> >>
       [] Is("SOFR") -> <<"USD", "UnitedStates.SOFR", "MF", 0, money, <<"SPOT", 0>> >>
       [] term = "CDOR" -> <<"CAD", "Canada", "MF", 0, money, r.period>>
       [] term = "EURI" -> <<"EUR", "Target", IF r.period[1] \in {"D", "W"} THEN "F" ELSE "MF",
                             2, money, r.period>>

JudgeIndex(r) ==
  LET w == IndexRule(r)
      two == {Serial(2023, 1, 1) + i : i \in 0..730} IN
  /\ Same("index " \o r.name, <<r.ok, r.ccy, r.conv, r.sd, r.eom, r.period>>,
          <<TRUE, w[1], w[3], w[4], FALSE, w[6]>>)
  /\ SameReal("day count of index " \o r.name, r.yf, w[5])
  /\ Same("calendar of index " \o r.name,
          {s \in two : (s \in ToSet(r.closed)) # (Dow(s) \in {Sat, Sun})},
          {s \in two : ~IsBusinessDay(w[2], s)})

-----------------------------------------------------------------------------
SpecPoints    == TraceInit /\ [][TraceStep(JudgePoints)]_vars
SpecForward   == TraceInit /\ [][TraceStep(JudgeForward)]_vars
SpecOption    == TraceInit /\ [][TraceStep(JudgeOption)]_vars
SpecCurve     == TraceInit /\ [][TraceStep(JudgeCurve)]_vars
SpecBootstrap == TraceInit /\ [][TraceStep(JudgeBootstrap)]_vars
SpecSchedule  == TraceInit /\ [][TraceStep(JudgeSchedule)]_vars
SpecSwap      == TraceInit /\ [][TraceStep(JudgeSwap)]_vars
SpecCap       == TraceInit /\ [][TraceStep(JudgeCap)]_vars
SpecCapRead   == TraceInit /\ [][TraceStep(JudgeCapSurface)]_vars
SpecCapStrip  == TraceInit /\ [][TraceStep(JudgeStrip)]_vars
SpecSmile     == TraceInit /\ [][TraceStep(JudgeSmile)]_vars
SpecIndex     == TraceInit /\ [][TraceStep(JudgeIndex)]_vars
=============================================================================
