-------------------------------- MODULE Cir --------------------------------
(***************************************************************************)
(* The square-root (CIR) process ds = k(th - s)dt + g sqrt(s) dW, s(0)=s0, *)
(* from its law: s(t) = c X, X noncentral chi-squared with l degrees of    *)
(* freedom and noncentrality e.  A process is [k, th, g, s0].              *)
(***************************************************************************)
EXTENDS RealMath

LOCAL Fade(p, t)    == RExp(RNeg(p.k (.) t))
LOCAL Gone(p, t)    == RNeg(RExpm1(RNeg(p.k (.) t)))
LOCAL Scale(p, t)   == ((p.g (.) p.g) (.) Gone(p, t)) (/) (4 (.) p.k)
LOCAL Degrees(p)    == ((4 (.) p.k) (.) p.th) (/) (p.g (.) p.g)
LOCAL Centre(p, t)  == (p.s0 (.) Fade(p, t)) (/) Scale(p, t)

\* Moments of c X: the mean is c(l + e), the variance c^2 (2l + 4e)
CirMean(p, t) == IF RLe(t, 0) THEN p.s0 ELSE (p.s0 (.) Fade(p, t)) (+) (p.th (.) Gone(p, t))
CirVariance(p, t) ==
  IF RLe(t, 0) THEN "0.0"
  ELSE LET c == Scale(p, t) IN
       (c (.) c) (.) ((2 (.) Degrees(p)) (+) (4 (.) Centre(p, t)))

\* X is a Poisson(e/2) mixture of chi-squared laws with l + 2j degrees, and
\* the mean square root of one with n degrees is sqrt(2) G((n+1)/2)/G(n/2)
LOCAL RootOf(l, j) ==
  RExp(RLnGamma((l (+) (2 * j + 1)) (/) 2) (-) RLnGamma((l (+) (2 * j)) (/) 2))
LOCAL Weight(h, j) ==      \* Poisson(h) at j
  IF REq(h, 0) THEN (IF j = 0 THEN "1.0" ELSE "0.0")
  ELSE RExp(((j (.) RLn(h)) (-) h) (-) RLnGamma(j + 1))

\* The weights beyond ten deviations of the mixture do not count
LOCAL Mixture(p, t) ==
  LET l == Degrees(p)
      h == Centre(p, t) (/) 2
      w == RFloor(10 (.) RSqrt(h)) + 30
      m == RFloor(h)
      from == IF m > w THEN m - w ELSE 0
  IN RSqrt(2 (.) Scale(p, t))
       (.) RSum([i \in 1..(m + w - from + 1) |-> Weight(h, from + i - 1) (.) RootOf(l, from + i - 1)])

\* Nearly certain: the expansion of the root about the mean to the fourth
\* central moment (c^3 8(l+3e) and c^4 (48(l+4e) + 12(l+2e)^2))
LOCAL Expansion(p, t) ==
  LET c == Scale(p, t)
      l == Degrees(p)
      e == Centre(p, t)
      x == (c (.) c) (/) (CirMean(p, t) (.) CirMean(p, t))
      y == c (/) CirMean(p, t)
      v2 == x (.) ((2 (.) l) (+) (4 (.) e))
      v3 == (x (.) y) (.) (8 (.) (l (+) (3 (.) e)))
      q  == l (+) (2 (.) e)
      v4 == (x (.) x) (.) ((48 (.) (l (+) (4 (.) e))) (+) (12 (.) (q (.) q)))
  IN RSqrt(CirMean(p, t))
       (.) (((1 (-) (v2 (/) 8)) (+) (v3 (/) 16)) (-) ((5 (.) v4) (/) 128))

LOCAL Certain(p, t) == RLt(1500, Centre(p, t)) \/ RLt("1e6", Degrees(p))
CirRootMean(p, t) ==
  IF RLe(t, 0) THEN RSqrt(RMax(0, p.s0))
  ELSE IF RLt(RAbs(p.g), "1e-14") THEN RSqrt(RMax(0, CirMean(p, t)))
  ELSE IF Certain(p, t) THEN Expansion(p, t) ELSE Mixture(p, t)

\* In the long run e = 0, the law is a chi-squared with l degrees; with very
\* many of them its root expands as sqrt(th) (1 - 1/(4 l) + ...)
CirRootLimit(p) ==
  IF RLt("1e6", Degrees(p)) THEN RSqrt(p.th) (.) (1 (-) (1 (/) (4 (.) Degrees(p))))
  ELSE (p.g (/) RSqrt(2 (.) p.k)) (.) RootOf(Degrees(p), 0)

\* b1 + b2 e^(-k t), exact now and in the long run
CirProxy(p) ==
  LET b == CirRootLimit(p) IN << b, RSqrt(RMax(0, p.s0)) (-) b, p.k >>
CirProxyAt(b, t) == b[1] (+) (b[2] (.) RExp(RNeg(b[3] (.) t)))

Feller(p) == RLe(p.g (.) p.g, (2 (.) p.k) (.) p.th)
=============================================================================
