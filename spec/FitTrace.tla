------------------------------ MODULE FitTrace ------------------------------
(* P28: recorded calibrations; one step per point the search had valued.   *)
EXTENDS Judging, NelderMead, Calibration, TraceCore, Options
SA == INSTANCE Sabr
SC == INSTANCE Schedules

VARIABLES m, i          \* the search of this lane's record, points walked
all == <<lane, pos, m, i>>

Idle == [ph |-> "idle"]
Now == Trace[At(lane, pos)]
Key == "fit " \o ToString(<<Now.model, Now.in, Now.strikes, Now.vols, Now.max, Now.ftol, Now.xtol, Now.frac>>)

-----------------------------------------------------------------------------
Accepts(r) == IF r.model = "sabr" THEN SabrFitAccepts(r.in, Len(r.strikes))
              ELSE HestonFitAccepts(r.in, Len(r.strikes))
StartOf(r) == IF r.model = "sabr" THEN SabrStart(r.in) ELSE HestonStart(r.in)
\* a search that found nothing proper leaves SABR at its start
PointOf(r, x) == IF r.model # "sabr" THEN HestonPoint(r.in, x)
                 ELSE IF SabrProper(SabrPoint(x)) THEN SabrPoint(x) ELSE <<r.in.a, r.in.r, r.in.n>>

\* What the quotes at a point amount to
Amounts(r, t) ==
  IF t.q = <<>> \/ \E j \in 1..Len(t.q) : t.q[j] = "none" THEN Penalty ELSE Misses(t.q, r.vols)
\* SABR's own quotes are the specification's
SabrAt(q, x) == LET p == SabrPoint(x) IN [a |-> p[1], b |-> q.b, r |-> p[2], n |-> p[3]]
OwnQuotes(r, t) ==
  LET p == SabrPoint(t.x)
      vol == [j \in 1..Len(r.strikes) |-> SA!HaganVol(SabrAt(r.in, t.x), r.in.f, r.strikes[j], r.in.T)]
  IN IF ~SabrProper(p) THEN t.q = <<>>
     ELSE \A j \in 1..Len(vol) :
            IF t.q[j] = "none" THEN ~(RFinite(vol[j]) /\ RLt("1e-9", vol[j]))
            ELSE RClose(t.q[j], vol[j], "1e-8" (+) ("4e-15" (/) (1 (-) RAbs(p[2]))), "1e-10")

FInit == TraceInit /\ m = Idle /\ i = 0

Take == /\ m = Idle
        /\ At(lane, pos + 1) <= Len(Trace)
        /\ pos' = pos + 1
        /\ LET r == Trace[At(lane, pos + 1)] IN
           IF r.kind = "fit" /\ Accepts(r) /\ r.ok
           THEN m' = Start(StartOf(r), r.max, r.ftol, r.xtol, r.frac)
           ELSE m' = Idle
        /\ LET r == Trace[At(lane, pos + 1)] IN
           r.kind = "fit" =>
             Same("fit " \o ToString(<<r.model, r.in, r.strikes>>), r.ok, Accepts(r))
        /\ i' = 0
        /\ lane' = lane

CloseTo(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A j \in 1..Len(x) : RClose(x[j], y[j], "1e-8", "1e-8")

Walk == /\ m # Idle /\ m.ph # "done"
        /\ i < Len(Now.tries)
        /\ LET t == Now.tries[i + 1]
               want == TLCEval(Ask(m)) IN
           /\ Report(CloseTo(t.x, want), Key \o " point " \o ToString(i + 1),
                     "the search tried " \o ToString(t.x) \o ", the rules " \o ToString(want))
           /\ Report(RClose(t.f, Amounts(Now, t), "1e-9", "1e-15"), Key \o " value " \o ToString(i + 1), t.f)
           /\ Now.model = "sabr" =>
                Report(OwnQuotes(Now, t), Key \o " quotes " \o ToString(i + 1), ToString(t.q))
           /\ m' = IF CloseTo(t.x, want) THEN Told(m, t.x, t.f) ELSE Idle
        /\ i' = IF m' = Idle THEN 0 ELSE i + 1
        /\ UNCHANGED <<lane, pos>>

\* The code's own search, whose points are not seen, came to the same end
End == /\ m # Idle
       /\ m.ph = "done" \/ i = Len(Now.tries)
       /\ IF m.ph # "done" \/ i < Len(Now.tries)
          THEN Report(FALSE, Key, "the search stopped after " \o ToString(Len(Now.tries)) \o " points")
          ELSE LET a == TLCEval(Answer(m))
                   got == Now.out.min
                   p == PointOf(Now, got.x) IN
               /\ Report(/\ CloseTo(got.x, a.x) /\ got.it = a.it /\ got.converged = a.converged
                         /\ RClose(got.f, a.f, "1e-6", "1e-13"),
                         Key, "the code ended at " \o ToString(got) \o ", the rules at " \o ToString(a))
               /\ \A j \in 1..Len(p) : Near(Key \o " parameters", Now.out.p[j], p[j], "1e-9", "1e-14")
               /\ Same(Key \o " everything else", Now.out.kept, TRUE)
               /\ Near(Key \o " error", Now.out.rmse, RootMean(got.f, Len(Now.strikes)), "1e-10", "1e-14")
               /\ (Now.model = "sabr" /\ got.f # Penalty) =>
                    \A j \in 1..Len(Now.strikes) :
                      Near(Key \o " quotes", Now.out.quotes[j],
                           SA!HaganVol([a |-> Now.out.p[1], b |-> Now.in.b, r |-> Now.out.p[2], n |-> Now.out.p[3]],
                                       Now.in.f, Now.strikes[j], Now.in.T),
                           "1e-8" (+) ("4e-15" (/) (1 (-) RAbs(p[2]))), "1e-10")
       /\ m' = Idle /\ i' = 0
       /\ UNCHANGED <<lane, pos>>

-----------------------------------------------------------------------------
\* A hybrid's helpers at its own parameters, given the COS price without
\* discounting (P31)
JudgeQuotes(r) ==
  LET f == IF r.model = "hhw" THEN FlatForward(r.p, r.T) ELSE r.p.x
      df == IF r.model = "hhw" THEN FlatDiscount(r.p, r.T) ELSE TenorDiscount(r.p, r.T)
      key == "quotes " \o ToString(<<r.model, r.p, r.T>>) IN
  /\ r.model # "hhw" => Near(key \o " forward", r.f, f, "1e-13", 0) /\ Near(key \o " discount", r.df, df, "1e-12", 0)
  /\ \A j \in 1..Len(r.strikes) :
       LET k == r.strikes[j]
           v == r.vol[j]
           eps == "1e-9" (.) (f (+) k)
           out == key \o " at " \o k IN
       /\ Near(out \o " price", r.price[j], df (.) r.unit[j], "1e-11", "1e-13" (.) (f (+) k))
       /\ IF v = "none"
          THEN Report(~Attainable("call", f, k, r.T, df, "1e-8" (-) eps, r.price[j]), out, "some volatility has this price")
          ELSE Report(Implies("call", f, k, r.T, df, "1e-8" (+) eps, r.price[j], v), out, "another price at " \o v)

SpecFit == FInit /\ [][Take \/ Walk \/ End]_all
SpecQuotes == TraceInit /\ m = Idle /\ i = 0 /\
              [][TraceStep(LAMBDA r : r.kind = "quotes" => JudgeQuotes(r)) /\ UNCHANGED <<m, i>>]_all

-----------------------------------------------------------------------------
(* Time-dependent SABR: each pillar's smile alone, then schedules whose    *)
(* effective parameters at each pillar are that smile's.                   *)
Head_(s, n) == [k |-> SubSeq(s.k, 1, n + 1), v |-> SubSeq(s.v, 1, n)]
SurfaceAccepts(ps) ==
  /\ ps # <<>>
  /\ RLt(0, ps[1].T)
  /\ \A j \in 1..(Len(ps) - 1) : RLt(ps[j].T, ps[j + 1].T)
Least == "1e-6"
\* vol of vol y is within d of the effective one of the schedules
GammaNear(g, w, T, y, d) ==
  LET want == SC!SecondMoment(g, w, T)
      e == SC!Eye(g, w, T)
      At_(x) == IF RLe(x, 0) THEN 0 ELSE SC!ConstantMoment(x (.) x, T, e)
  IN RLe(At_(y (-) d), want) /\ RLe(want, At_(y (+) d))

\* even the least vol of vol in the last segment makes more than y
TooMuch(g, w, T, y) ==
  LET z == RMax(0, y (-) "5e-6") IN
  RLe(SC!ConstantMoment(z (.) z, T, SC!Eye(g, w, T)), SC!SecondMoment(g, w, T))

JudgeSurface(r) ==
  LET key == "surface " \o ToString(<<r.pillars, r.b, r.f>>)
      ps == r.pillars
      n == Len(ps)
      o == r.out IN
  IF ~SurfaceAccepts(ps) THEN Same(key, r.ok, FALSE)
  ELSE IF ~r.ok THEN Same(key, r.ok, TRUE)
  ELSE
  /\ Same(key \o " knots", <<o.a.k, o.r.k, o.n.k>>,
          LET k == <<"0.0">> \o [j \in 1..n |-> ps[j].T] IN <<k, k, k>>)
  /\ Same(key \o " beta, forward", <<o.b, o.f, Len(o.at), o.again>>, <<r.b, r.f, n, TRUE>>)
  /\ \A j \in 1..n :
       LET d == o.at[j]
           kj == key \o " pillar " \o ToString(j)
           T == ps[j].T
           g == Head_(o.n, j)
           w == Head_(o.a, j)
           c == Head_(o.r, j)
           fit == [a |-> d.p[1], b |-> r.b, r |-> d.p[2], n |-> d.p[3]]
           flat == [k |-> w.k, v |-> [x \in 1..j |-> fit.a]]
           gamma == d.gamma
           omega == SC!EffectiveOmega(g, w, T, gamma)
           rho == SC!EffectiveRho(g, w, c, T, gamma, omega)
           \* the sum the correlation asks of this segment
           due == ((fit.r (.) gamma) (.) T) (/) omega
           before == RSum([x \in 1..(j - 1) |-> ((o.r.v[x] (.) o.n.v[x]) (/) o.a.v[x]) (.) (w.k[x + 1] (-) w.k[x])])
           last == (o.n.v[j] (/) o.a.v[j]) (.) (w.k[j + 1] (-) w.k[j])
       IN /\ Same(kj \o " alone", <<d.T, d.p, d.b>>, <<T, r.fits[j], r.b>>)
          /\ Near(kj \o " error alone", d.first,
                  RootMean(Misses([x \in 1..Len(ps[j].strikes) |-> SA!HaganVol(fit, ps[j].f, ps[j].strikes[x], T)], ps[j].vols),
                           Len(ps[j].strikes)), "1e-7", "1e-9" (+) ("4e-15" (/) (1 (-) RAbs(fit.r))))
          /\ Report(IF RClose(o.n.v[j], Least, "1e-9", 0) THEN TooMuch(g, flat, T, fit.n) ELSE GammaNear(g, flat, T, fit.n, "5e-6"),
                    kj \o " vol of vol", "the moments differ at " \o o.n.v[j])
          /\ Report(SC!IsEffectiveGamma(g, w, T, gamma), kj \o " effective vol of vol", gamma)
          /\ IF RClose(o.a.v[j], Least, "1e-9", 0)
             THEN Report(RLe(fit.a, omega (+) "1e-7"), kj \o " volatility", "the least is not too much")
             ELSE Near(kj \o " volatility", omega, fit.a, "1e-6", "1e-7")
          /\ Near(kj \o " correlation", o.r.v[j], RMax("-0.999", RMin("0.999", (due (-) before) (/) last)), "1e-6", "1e-7")
          /\ Near(kj \o " error", d.last,
                  RSqrt(RSum(<<(gamma (-) fit.n) (.) (gamma (-) fit.n), (omega (-) fit.a) (.) (omega (-) fit.a),
                               (rho (-) fit.r) (.) (rho (-) fit.r)>>) (/) 3), "1e-6", "1e-7")
  /\ Near(key \o " error", o.rmse, FoldLeft(LAMBDA a, d : RMax(a, d.first), "0.0", o.at), "1e-12", 0)

\* A strip is the surface's volatilities (P19) at the strikes, Actual/365
JudgeStrip(r) ==
  LET key == "strip " \o ToString(<<r.s, r.v, r.e, r.strikes, r.pillars>>) IN
  IF r.strikes = <<>> THEN Same(key, r.out.how, "panic")
  ELSE IF \E j \in 1..Len(r.each) : Word(r.each[j]) THEN Same(key, r.out.how, "error")
  ELSE /\ Same(key, r.out.how, "ok")
       /\ r.out.how = "ok" =>
            /\ SameReal(key \o " expiry", r.out.T, (r.e - r.v) (/) 365)
            /\ Same(key, <<r.out.f, r.out.strikes, r.out.vols, r.out.same>>, <<r.f, r.strikes, r.each, TRUE>>)

JudgeFitted(r) == IF r.kind = "surface" THEN JudgeSurface(r) ELSE JudgeStrip(r)
SpecSurface == TraceInit /\ m = Idle /\ i = 0 /\ [][TraceStep(JudgeFitted) /\ UNCHANGED <<m, i>>]_all
=============================================================================
