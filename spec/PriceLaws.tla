----------------------------- MODULE PriceLaws ------------------------------
(***************************************************************************)
(* What the pricing formulas of the specification must satisfy, checked on *)
(* drawn parameters: prices are expectations of payoffs (by quadrature),   *)
(* parities, sensitivities that are derivatives, moments that solve their  *)
(* equations, curves and smiles that give their quotes back.               *)
(***************************************************************************)
EXTENDS FxSmile, FxValue, Caps, Cir, HullWhite, Sabr

CONSTANTS Sets, Laws
VARIABLES i, law, judged
vars == <<i, law, judged>>

Init == i \in 1..Sets /\ law \in Laws /\ judged = FALSE
Next == ~judged /\ judged' = TRUE /\ UNCHANGED <<i, law>>
Spec == Init /\ [][Next]_vars

Spread0(k) == (((i * 7919) + (k * 104729)) % 9973) (/) 9973
Draw(k, lo, hi) == lo (+) ((hi (-) lo) (.) Spread0(k))
Pick(k, n) == ((((i * 7919) + (k * 104729)) % 9973) % n) + 1
Close(a, b, rel, abs) == RClose(a, b, rel, abs)

\* E[g(Z)] for a standard normal Z: trapezium over +-9.6, 1200 intervals
Nodes == 1200
Z(k) == ((k - 601) (/) 62) (-) "0.0"
Mean(g(_)) == RSum([k \in 1..(Nodes + 1) |-> RNormPdf(Z(k)) (.) g(Z(k))]) (/) 62
\* the derivative of g at x
Slope(g(_), x, h) == (g(x (+) h) (-) g(x (-) h)) (/) (2 (.) h)

-----------------------------------------------------------------------------
OptionLaw ==
  LET f == Draw(1, "0.5", "2")  k == f (.) RExp(Draw(2, "-0.5", "0.5"))
      v == Draw(3, "0.001", "0.6")  t == Draw(4, "0.1", "3")  df == Draw(5, "0.7", "1.05")
      call(x, y, z) == Black("call", x, y, z, df)
      put(x, y, z) == Black("put", x, y, z, df)
      n(x, z) == Bachelier("call", x, k, z)
  IN /\ Close(call(f, k, v) (-) put(f, k, v), df (.) (f (-) k), "1e-9", "1e-10")       \* parity
     /\ Close(call(f, k, v), put(k, f, v), "1e-8", "1e-10")                             \* a call is the other side's put
     /\ Close(call(3 (.) f, 3 (.) k, v), 3 (.) call(f, k, v), "1e-9", "1e-10")
     /\ RLe(Black("call", f, k, 0, df), call(f, k, v) (+) "1e-12") /\ RLe(call(f, k, v), (df (.) f) (+) "1e-12")
     /\ RLt(call(f, k, v), call(f, k, v (+) "0.01")) /\ RLt(call(f, k, v), call(f (+) "0.01", k, v))
     /\ Close(call(f, k, v), df (.) Mean(LAMBDA x :
                RMax(0, (f (.) RExp((RSqrt(v) (.) x) (-) (v (/) 2))) (-) k)), "2e-3", "2e-5")
     /\ Close(Bachelier("call", f, k, v) (-) Bachelier("put", f, k, v), f (-) k, "1e-9", "1e-10")
     /\ Close(n(f, v), Mean(LAMBDA x : RMax(0, (f (+) (RSqrt(v) (.) x)) (-) k)), "1e-3", "1e-5")
     /\ Close(BachelierVega(f, k, v), Slope(LAMBDA z : n(f, z), v, "1e-6"), "1e-4", "1e-6")
     \* a price in between is implied by one volatility
     /\ LET p == BlackVol("call", f, k, "0.3", t, df) IN
        /\ Attainable("call", f, k, t, df, "1e-10", p)
        /\ Implies("call", f, k, t, df, "1e-10", p, "0.3")
        /\ ~Implies("call", f, k, t, df, "1e-10", p, "0.31")

-----------------------------------------------------------------------------
Today == Serial(2024, 1, 15)
Pillars ==
  LET n == Pick(9, 4) + 1 IN
  [k \in 1..n |-> << Today + (90 * k * k) + Pick(10 + k, 60), Draw(20 + k, "-0.01", "0.06"), k > 1 /\ k < n /\ Pick(30 + k, 3) = 1 >>]

CurveLaw ==
  LET pil == Pillars
      v == Visible(pil)
      D(d) == Discount(pil, Today, d)
      a == Today + 1 + Pick(41, 700)  b == a + Pick(42, 900) IN
  /\ Close(D(a) (.) RExp(RNeg(ForwardRate(pil, Today, a, b) (.) Years365(a, b))), D(b), "1e-12", 0)
  /\ \A k \in DOMAIN v : Close(Zero(pil, v[k][1] - 1), v[k][2], "1e-14", 0)
  /\ \A d \in {a, b} : \* no rate outside those of the pillars, none jumps
       /\ \E k \in DOMAIN v : RLe(v[k][2], Zero(pil, d) (+) "1e-14")
       /\ \E k \in DOMAIN v : RLe(Zero(pil, d), v[k][2] (+) "1e-14")
       /\ RLe(RAbs(Zero(pil, d + 1) (-) Zero(pil, d)), "0.07" (/) 30)
  /\ Close(Slope(LAMBDA x : RLn(ShiftedDiscount(pil, Today, b, x)), 0, 1), RNeg("1e-4" (.) Years365(Today, b)), "1e-9", "1e-12")
  /\ REq(D(Today), 1)
  \* a floating leg with its principal is worth its start; a fixed one at the
  \* rate that makes it so is the par swap
  /\ LET step == 30 + Pick(43, 150)  n == Pick(44, 6)
         rows == [k \in 1..n |-> << a + step * (k - 1), a + step * k, a + step * k, 0, 100 >>]
         dc == <<"Actual360", "Actual365Fixed", "Thirty360.European", "ActualActual.Isda">>[Pick(45, 4)]
         float == [type |-> "float", rate |-> 0, dir |-> 1, dc |-> dc, rows |-> rows]
         annuity == RSum([k \in 1..n |-> Tau(dc, rows[k]) (.) D(rows[k][3])])
         par == (D(a) (-) D(a + step * n)) (/) annuity
         fixed == [type |-> "fixed", rate |-> par, dir |-> -1, dc |-> dc, rows |-> rows]
         cap(kind, style) == RSum([k \in 1..n |-> Caplet(pil, Today, kind, style, dc, "0.02", rows[k], "0.01", 0)])
     IN /\ Close(LegValue(pil, Today, float, 0), 100 (.) D(a), "1e-11", 0)
        /\ Close(SwapValue(pil, Today, <<float, fixed>>, 0), 0, 0, "1e-10")
        \* a cap less a floor is the swap at their strike
        /\ \A style \in {"forward", "backward"} :
             Close(cap("cap", style) (-) cap("floor", style), annuity (.) (par (-) "0.02"), "1e-9", "1e-10")
        /\ RLe(cap("cap", "forward"), cap("cap", "backward") (+) "1e-12")

-----------------------------------------------------------------------------
FxLaw ==
  LET pair == <<"EURUSD", "USDJPY", "GBPUSD">>[Pick(50, 3)]
      pil == Pillars
      spot == Draw(51, "0.8", "1.5")  pts == Draw(52, -50, 50)
      dir == IF Pick(53, 2) = 1 THEN 1 ELSE -1
      T(type, ccy, nom, vol, sp) ==
        [pair |-> pair, s |-> Today, spot |-> sp, strike |-> Draw(54, "0.8", "1.5"), expiry |-> Today + 30 + Pick(55, 700),
         notional |-> nom, ccy |-> ccy, dir |-> dir, pil |-> pil, type |-> type, vol |-> vol]
      vol == Draw(56, "0.05", "0.6")
      call == T("call", "frn", 1000, vol, spot)  put == T("put", "frn", 1000, vol, spot)
      \* per unit of spot, so that delta is the derivative by the outright
      unit(r) == RNeg(OptionValue(r, pts)) (.) r.spot
      r0(type) == IF type = "call" THEN call ELSE put
      perOut(type) == Slope(LAMBDA o : RMul(r0(type).notional, Black(type, o, r0(type).strike, Variance(r0(type)), 1)), Outright(call, pts), "1e-5")
      D == Discount(pil, Today, call.expiry) IN
  /\ Close(unit(call) (-) unit(put), dir (.) (1000 (.) (D (.) (Outright(call, pts) (-) call.strike))), "1e-8", "1e-7")
  /\ Close(ForwardValue(call, pts), unit(call) (-) unit(put), "1e-8", "1e-7")
  /\ \A type \in {"call", "put"} :
       /\ Close(OptionDelta(r0(type), pts), dir (.) perOut(type), "1e-4", "1e-2")
       /\ Close(OptionVega(r0(type), pts),
                RNeg(Slope(LAMBDA s : OptionValue(T(type, "frn", 1000, s, spot), pts), vol, "1e-5")) (.) "0.01", "1e-4", "1e-4")
  \* a domestic notional of strike times as much is the same trade
  /\ LET dom == T("call", "dom", 1000 (.) call.strike, vol, spot) IN
     /\ Close(OptionValue(dom, pts) (/) spot, OptionValue(call, pts), "1e-9", "1e-9")
     /\ Close(OptionDelta(dom, pts), OptionDelta(call, pts), "1e-11", 0)
     /\ Close(OptionGamma(dom, pts), OptionGamma(call, pts), "1e-11", 0)
     /\ Close(ForwardValue(dom, pts), RNeg(ForwardValue(call, pts)), "1e-11", "1e-9")

-----------------------------------------------------------------------------
Wings == << <<"0.25">>, <<"0.1", "0.25">>, <<"0.05", "0.15", "0.35">> >>[Pick(60, 3)]
SmileOf(e, k) ==
  LET atm == Draw(61 + k, "0.06", "0.2") IN
  [e |-> e, f |-> Draw(65 + k, "0.9", "1.3"),
   q |-> << <<"atm", atm, 0>> >> \o [j \in 1..(2 * Len(Wings)) |->
           LET d == Wings[(j + 1) \div 2] IN
           IF j % 2 = 1 THEN <<"rr", d, Draw(70 + k, "-0.01", "0.01") (.) (1 (-) d)>>
           ELSE <<"bf", d, "0.004" (.) ("0.6" (-) d)>>]]
SmileLaw ==
  LET p == SmileOf(Today + 60, 0)  r == SmileOf(Today + 400, 10) IN
  (PillarValid(Today, p) /\ PillarValid(Today, r)) =>
    LET a == Smile(Today, p)  b == Smile(Today, r)
        sv(e, k) == SurfaceVol(Today, <<a, b>>, e, k)
        N(x) == RNormCdf(x) IN
    /\ \A j \in 1..a.n :          \* each strike has its delta, and its volatility
         LET k == a.pt[j][1]  v == a.pt[j][2]
             d1 == D1(p.f, k, (v (.) v) (.) a.t)
             d == Deltas(p.q) IN
         /\ Close(SmileVol(a, k), v, "1e-10", 0)
         /\ Close(sv(p.e, k), v, "1e-10", 0)
         /\ IF j = a.mid THEN Close(d1, 0, 0, "1e-9")
            ELSE IF j < a.mid THEN Close(1 (-) N(d1), d[j], "1e-8", 0)
            ELSE Close(N(d1), d[a.n + 1 - j], "1e-8", 0)
    /\ \A k \in {"0.9", "1.05", "1.2"} :   \* kept before and after, variance in between
         /\ Close(sv(Today + 10, k), sv(p.e, k), "1e-14", 0) /\ Close(sv(Today + 900, k), sv(r.e, k), "1e-14", 0)
         /\ LET w(e) == (sv(e, k) (.) sv(e, k)) (.) Years365(Today, e) IN
            Close(w(Today + 230) , "0.5" (.) (w(p.e) (+) w(r.e)), "1e-9", 0)

-----------------------------------------------------------------------------
MomentLaw ==
  LET p == [k |-> Draw(80, "0.2", "4"), th |-> Draw(81, "0.01", "0.3"), g |-> Draw(82, "0.05", "1"), s0 |-> Draw(83, "0.005", "0.3")]
      t == Draw(84, "0.1", "4")
      m == CirMean(p, t)  v == CirVariance(p, t)  x == CirRootMean(p, t)
      l == Draw(85, "0.01", "1")  n == Draw(86, "0.002", "0.03")  T == t (+) Draw(87, "0.2", "8")
      P(s) == RExp(RNeg("0.03" (.) s))
      B == HwB(l, t, T) IN
  /\ Close(Slope(LAMBDA s : CirMean(p, s), t, "1e-5"), p.k (.) (p.th (-) m), "1e-5", "1e-8")
  /\ Close(Slope(LAMBDA s : CirVariance(p, s), t, "1e-5"),
           ((p.g (.) p.g) (.) m) (-) ((2 (.) p.k) (.) v), "1e-5", "1e-8")
  /\ RLe(x (.) x, m (+) "1e-12")                             \* Jensen
  /\ RLe(m (-) (x (.) x), v (/) m)                            \* Var sqrt(s) <= Var s / E s
  /\ Close(CirRootMean(p, 80), CirRootLimit(p), "1e-6", 0)
  /\ Close(CirProxyAt(CirProxy(p), 0), RSqrt(p.s0), "1e-10", 0)
  \* bonds: B solves B' = 1 + l B in t; variance adds up; no arbitrage
  /\ Close(Slope(LAMBDA s : HwB(l, s, T), t, "1e-5"), 1 (+) (l (.) B), "1e-6", "1e-7")
  /\ Close(Slope(LAMBDA s : HwBondVariance(l, n, 0, s, T), t, "1e-4"), ((n (.) B) (.) (n (.) B)), "1e-4", "1e-12")
  /\ Close(HwBondVariance(l, n, 0, t, T) (+) HwBondVariance(l, n, t, T, T), HwBondVariance(l, n, 0, T, T), "1e-10", 0)
  /\ LET sd == RSqrt(HwRateVariance(l, n, 0, t)) IN    \* under the bond's own measure
     Close(Mean(LAMBDA z : HwBond(l, n, t, T, "0.03" (+) (sd (.) z), P(t), P(T), "0.03")), P(T) (/) P(t), "1e-9", 0)

-----------------------------------------------------------------------------
SabrLaw ==
  LET f == Draw(90, "0.02", "2")  T == Draw(91, "0.1", "5")
      p == [a |-> Draw(92, "0.05", "0.5"), b |-> Draw(93, 0, 1), r |-> Draw(94, "-0.8", "0.8"), n |-> Draw(95, "0.01", 1)]
      k == f (.) RExp(Draw(96, "-0.8", "0.8"))
      c == Draw(97, "0.5", 4) IN
  /\ Close(HaganVol(p, f, f (.) "1.0000001", T), HaganAtm(p, f, T), "1e-6", 0)
  \* the unit of money does not matter
  /\ Close(HaganVol([p EXCEPT !.a = p.a (.) RPow(c, 1 (-) p.b)], c (.) f, c (.) k, T), HaganVol(p, f, k, T), "1e-9", 0)
  \* lognormal and certain: alpha
  /\ Close(HaganVol([p EXCEPT !.b = "1", !.n = "0"], f, k, T), p.a, "1e-12", 0)
  \* lognormal: mirrored by the other correlation, but for the drift term
  /\ LET q == [p EXCEPT !.b = "1"]  w == [q EXCEPT !.r = RNeg(p.r)] IN
     Close(HaganVol(q, f, k, T) (/) HaganAtm(q, f, T), HaganVol(w, k, f, T) (/) HaganAtm(w, f, T), "1e-9", 0)
  \* both sides of the series for small z agree
  /\ LET z == "0.99999e-4" (.) (p.a (/) (p.n (.) RPow(f, 1 (-) p.b)))
         y == "1.00001e-4" (.) (p.a (/) (p.n (.) RPow(f, 1 (-) p.b))) IN
     RLt(z, "0.01") =>
       Close(HaganVol(p, f, f (.) RExp(RNeg(z)), T), HaganVol(p, f, f (.) RExp(RNeg(y)), T), "1e-5" (.) (y (+) "1e-4"), 0)

Lawful == judged =>
  CASE law = "options" -> OptionLaw
    [] law = "curve"   -> CurveLaw
    [] law = "fx"      -> FxLaw
    [] law = "smile"   -> SmileLaw
    [] law = "moments" -> MomentLaw
    [] law = "sabr"    -> SabrLaw
=============================================================================
