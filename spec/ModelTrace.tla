----------------------------- MODULE ModelTrace -----------------------------
(* The models' closed forms, as the code computed them.  The normal         *)
(* distribution that the code takes from a library is good to 1e-10.       *)
EXTENDS Judging, Options, Cir, HullWhite, Sabr, Schedules, TraceCore

Key(r, what) == what \o " " \o ToString(r.in)

------------------------------------------------------------------- \* P25
JudgeFormula(r) ==
  LET q == r.in IN
  CASE r.kind = "black" ->
         LET v == (RMax(0, q.s) (.) RMax(0, q.s)) (.) RMax(0, q.t)
             scale == "1e-10" (.) (RAbs(q.df) (.) (q.f (+) q.k)) IN
         /\ Near(Key(r, "Black call"), r.out.call, Black("call", q.f, q.k, v, q.df), "1e-12", scale)
         /\ Near(Key(r, "Black put"), r.out.put, Black("put", q.f, q.k, v, q.df), "1e-12", scale)
    [] r.kind = "bachelier" ->
         LET scale == "1e-10" (.) (RAbs(q.f (-) q.k) (+) RSqrt(RMax(0, q.v))) IN
         /\ Near(Key(r, "Bachelier call"), r.out.call, Bachelier("call", q.f, q.k, q.v), "1e-12", scale)
         /\ Near(Key(r, "Bachelier put"), r.out.put, Bachelier("put", q.f, q.k, q.v), "1e-12", scale)
         /\ Near(Key(r, "Bachelier vega"), r.out.vega, BachelierVega(q.f, q.k, q.v), "1e-11", "1e-300")
    [] r.kind = "normal" ->
         /\ Near(Key(r, "normal distribution"), r.out.cdf, RNormCdf(q.x), "1e-8", "1e-300")
         /\ Near(Key(r, "normal distribution"), r.out.cdf, RNormCdf(q.x), 0, "1e-10")
         /\ Near(Key(r, "normal density"), r.out.pdf, RNormPdf(q.x), "1e-11", "1e-300")
    [] r.kind = "quantile" ->
         IF RLt(0, q.p) /\ RLt(q.p, 1)
         THEN Near(Key(r, "normal quantile"), r.out.z, RNormInv(q.p), "1e-9", "1e-11")
         ELSE Same(Key(r, "normal quantile"), r.out.z, "panic")
    [] r.kind = "implied" ->
         \* a target this close to the bounds may go either way
         LET eps == "2e-10" (.) (q.f (+) q.k)
             in  == Attainable(q.type, q.f, q.k, q.t, q.df, q.tol (-) eps, q.p)
             out == ~Attainable(q.type, q.f, q.k, q.t, q.df, q.tol (+) eps, q.p)
         IN IF r.out.vol = "none" THEN Report(~in, Key(r, "implied volatility"), "some volatility has this price, the code found none")
            ELSE IF Word(r.out.vol) THEN Same(Key(r, "implied volatility"), r.out.vol, "a volatility or none")
            ELSE /\ Report(~out, Key(r, "implied volatility"), "no volatility has this price, the code found " \o r.out.vol)
                 /\ Report(out \/ Implies(q.type, q.f, q.k, q.t, q.df, q.tol (+) eps, q.p, r.out.vol),
                           Key(r, "implied volatility"), "the code found " \o r.out.vol \o ", which has another price")
    [] OTHER -> TRUE
SpecFormula == TraceInit /\ [][TraceStep(JudgeFormula)]_vars

------------------------------------------------------------------- \* P26
JudgeMoments(r) ==
  LET q == r.in IN
  CASE r.kind = "cir" ->
         LET p == [k |-> q.k, th |-> q.th, g |-> q.g, s0 |-> q.s0] IN
         /\ Near(Key(r, "CIR mean"), r.out.mean, CirMean(p, q.t), "1e-12" (+) ("1e-15" (/) (q.k (.) RMax("1e-12", q.t))), 0)
         \* 1 - e^(-kt) in doubles loses what k t does not keep of 1
         /\ Near(Key(r, "CIR variance"), r.out.variance, CirVariance(p, q.t),
                 "1e-12" (+) ("1e-15" (/) (q.k (.) RMax("1e-12", q.t))), 0)
         /\ Near(Key(r, "CIR mean root"), r.out.root, CirRootMean(p, q.t), "1e-5", 0)
         /\ Near(Key(r, "CIR mean root in the long run"), r.out.limit, CirRootLimit(p), "1e-8", 0)
         /\ LET b == CirProxy(p) IN
            /\ \A i \in 1..3 : Near(Key(r, "CIR proxy"), r.out.proxy[i], b[i], "1e-8", "1e-9")
            /\ Near(Key(r, "CIR proxy"), r.out.proxied, CirProxyAt(b, q.t), "1e-8", "1e-9")
         /\ Same(Key(r, "Feller"), r.out.feller, Feller(p))
    [] r.kind = "cirsure" ->
         LET p == [k |-> q.k, th |-> q.th, g |-> q.g, s0 |-> q.s0] IN
         Near(Key(r, "CIR mean root"), r.out.root, CirRootMean(p, q.t), "1e-12" (+) ("1e-15" (/) (q.k (.) RMax("1e-12", q.t))), 0)
    [] r.kind = "cirfine" ->
         \* where the code sums the series, to the precision asked for
         LET p == [k |-> q.k, th |-> q.th, g |-> q.g, s0 |-> q.s0] IN
         Near(Key(r, "CIR mean root"), r.out.root, CirRootMean(p, q.t), q.tol, 0)
    [] r.kind = "hw" ->
         \* what the exponentials of nearly zero lose
         LET lose(x) == IF RLt(RAbs(q.l), "1e-12") THEN "1e-11" ELSE "1e-12" (+) ("1e-15" (/) RAbs(q.l (.) x)) IN
         /\ Near(Key(r, "Hull-White B"), r.out.b, HwB(q.l, q.t, q.T), lose(q.T (-) q.t), "1e-15")
         /\ Near(Key(r, "Hull-White variance"), r.out.var, HwRateVariance(q.l, q.n, q.t, q.T), lose(q.T (-) q.t), "1e-18")
         /\ Near(Key(r, "Hull-White bond variance"), r.out.blv, HwBondVariance(q.l, q.n, q.s1, q.s2, q.T), "1e-11",
                 ("1e-11" (.) (q.n (.) q.n)) (.) RPow(q.T (-) q.s1, 3))
         /\ Near(Key(r, "Hull-White bond"), r.out.bond, HwBond(q.l, q.n, q.t, q.T, q.r, q.p0t, q.p0T, q.f),
                 lose(q.T (-) q.t) (+) (IF RLe(q.t, 0) THEN 0 ELSE lose(q.t)), 0)
    [] OTHER -> TRUE
SpecMoments == TraceInit /\ [][TraceStep(JudgeMoments)]_vars

------------------------------------------------------------------- \* P27
JudgeSabr(r) ==
  LET q == r.in IN
  CASE r.kind = "params" ->
         Same(Key(r, "SABR parameters"), r.out, IF SabrValid(q) THEN "accepted" ELSE "panic")
    [] r.kind = "hagan" ->
         LET p == [a |-> q.a, b |-> q.b, r |-> q.r, n |-> q.n] IN
         IF ~(RLt(0, q.f) /\ RLt(0, q.K) /\ RLt(0, q.t))
         THEN Same(Key(r, "Hagan"), r.out.vol, "panic")
         ELSE /\ Near(Key(r, "Hagan volatility"), r.out.vol, HaganVol(p, q.f, q.K, q.t),
                      "1e-11" (+) ("4e-15" (/) (1 (-) RAbs(q.r))), 0)
              /\ Near(Key(r, "Hagan at the money"), r.out.atm, HaganAtm(p, q.f, q.t), "1e-12", 0)
    [] r.kind = "schedule" ->
         IF ~ScheduleValid(q) THEN Same(Key(r, "schedule"), r.out, <<"panic">>)
         ELSE \A i \in 1..Len(q.t) :
                Same(Key(r, "schedule at " \o q.t[i]), r.out[i], ScheduleAt(q, q.t[i]))
    [] r.kind = "effective" ->
         LET g == [k |-> q.k, v |-> q.g]
             w == [k |-> q.kw, v |-> q.w]
             c == [k |-> q.kr, v |-> q.r] IN
         IF ~Aligned(g, w, q.T)
         THEN Same(Key(r, "unaligned schedules"), <<r.out.gamma, r.out.omega, r.out.rho>>, <<"panic", "panic", "panic">>)
         ELSE IF q.kr # q.k
         THEN Same(Key(r, "unaligned correlation"), r.out.rho, "panic")
         ELSE /\ Report(~Word(r.out.gamma) /\ IsEffectiveGamma(g, w, q.T, r.out.gamma),
                        Key(r, "effective vol of vol"), "the moments differ at " \o r.out.gamma)
              /\ Near(Key(r, "effective volatility"), r.out.omega, EffectiveOmega(g, w, q.T, r.out.gamma), "1e-6", 0)
              /\ Near(Key(r, "effective volatility"), r.out.omega, EffectiveOmega(g, w, q.T, r.out.gamma),
                      IF RLt(Sq(r.out.gamma) (.) q.T, "1e-6") THEN "1e-6" ELSE "1e-11", 0)
              /\ Near(Key(r, "effective correlation"), r.out.rho,
                      EffectiveRho(g, w, c, q.T, r.out.gamma, r.out.omega), "1e-11", "1e-12")
    [] OTHER -> TRUE
SpecSabr == TraceInit /\ [][TraceStep(JudgeSabr)]_vars
=============================================================================
