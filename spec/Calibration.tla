----------------------------- MODULE Calibration ----------------------------
(***************************************************************************)
(* What calibrating is: the Nelder-Mead search (NelderMead.tla) over       *)
(* unbounded coordinates, each standing for one free parameter, for the    *)
(* least sum of squared differences between a model's volatilities and the *)
(* market's.  Everything else about the model stays as it was.             *)
(***************************************************************************)
EXTENDS RealMath, SequencesExt

\* Positive numbers: ln(1 + e^x)
Soft(x) == IF RLt(35, x) THEN x ELSE RLn1p(RExp(x))
\* where the start of a positive one lies, kept off zero
Hard(y) == LET p == RMax(y, "1e-8") IN IF RLt(35, p) THEN p ELSE RLn(RExpm1(p))
\* Correlations: tanh x
LOCAL Inside(r) == RMax("-0.999", RMin(r, "0.999"))
Turn(r) == LET c == Inside(r) IN RLn((1 (+) c) (/) (1 (-) c)) (/) 2
\* Numbers below a cap: cap/(1 + e^-x)
Below(cap, x) == cap (/) (1 (+) RExp(RNeg(x)))
Logit(cap, y) == LET s == RMax("1e-4", RMin("0.9999", y (/) cap)) IN RLn(s (/) (1 (-) s))

Misses(vols, market) ==
  RSum([i \in 1..Len(vols) |-> (vols[i] (-) market[i]) (.) (vols[i] (-) market[i])])
\* What a point with a strike that no volatility fits is worth
Penalty == "1000000.0"
RootMean(f, n) == RSqrt(f (/) n)

-----------------------------------------------------------------------------
(* SABR: free alpha, rho and nu; q is the start                            *)
SabrFitAccepts(q, n) == RLt(0, q.f) /\ RLt(0, q.T) /\ n > 0
SabrStart(q) == << Hard(q.a), Turn(q.r), Hard(q.n) >>
SabrPoint(x) == << Soft(x[1]), RTanh(x[2]), Soft(x[3]) >>
SabrProper(p) == RLt(0, p[1]) /\ RLt(-1, p[2]) /\ RLt(p[2], 1)

(* The Heston numbers of a hybrid, kappa above a floor, gamma perhaps      *)
(* below a cap: kappa, gamma, theta, sigma_0 and the correlation.          *)
HestonFitAccepts(q, n) == /\ RLt(0, q.T) /\ n > 0 /\ RLe(0, q.floor)
                          /\ q.capped => RLt(0, q.cap)
HestonStart(q) ==
  << Hard(q.h.k (-) q.floor), IF q.capped THEN Logit(q.cap, q.h.g) ELSE Hard(q.h.g),
     Hard(q.h.th), Hard(q.h.s0), Turn(q.r) >>
HestonPoint(q, x) ==
  << q.floor (+) Soft(x[1]), IF q.capped THEN Below(q.cap, x[2]) ELSE Soft(x[2]),
     Soft(x[3]), Soft(x[4]), RTanh(x[5]) >>

-----------------------------------------------------------------------------
(* Forwards and discount factors as the hybrids have them                  *)
FlatForward(p, T) == p.x (.) RExp((p.rd (-) p.rf) (.) T)
FlatDiscount(p, T) == RExp(RNeg(p.rd (.) T))
\* both sides share the tenor's rates, the last one going on beyond its end
TenorDiscount(p, T) ==
  LET n == Len(p.R)
      chain == FoldLeft(LAMBDA a, b : a (.) b, "1",
                        [k \in 1..n |-> 1 (/) (1 (+) ((p.T[k + 1] (-) p.T[k]) (.) p.R[k]))])
  IN chain (.) RExp(RNeg(p.R[n] (.) RMax(0, T (-) p.T[n + 1])))
=============================================================================
