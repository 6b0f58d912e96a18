----------------------------- MODULE HullWhite -----------------------------
(***************************************************************************)
(* Hull and White's short rate dr = l(theta - r)dt + n dW, or Ho and Lee's *)
(* at l = 0.  A bond's price P(t,T) is linear in the rate in its logarithm.*)
(***************************************************************************)
EXTENDS RealMath

\* (1 - e^(-a x))/a, or x at a = 0
LOCAL Ramp(a, x) == IF REq(a, 0) THEN x ELSE RNeg(RExpm1(RNeg(a (.) x))) (/) a

\* The bond's sensitivity to the rate
HwB(l, t, T) == RNeg(Ramp(l, T (-) t))

\* Variance of the rate at t2 seen from t1
HwRateVariance(l, n, t1, t2) ==
  IF RLe(t2 (-) t1, 0) THEN "0.0" ELSE (n (.) n) (.) Ramp(2 (.) l, t2 (-) t1)

(* The integral of (n B(s,T))^2 over s1..s2, x = T - s falling from a to b.*)
(* In powers of l while l x is small:                                      *)
(* B^2 = x^2 (1 - y + 7y^2/12 - y^3/4 + 31y^4/360 - ...), y = l x.         *)
LOCAL Powers(l, x) ==
  LET y == l (.) x
      x3 == x (.) (x (.) x) IN
  x3 (.) RSum(<< "1" (/) 3, RNeg(y (/) 4), (7 (.) (y (.) y)) (/) 60,
                 RNeg(((y (.) y) (.) y) (/) 24),
                 (31 (.) ((y (.) y) (.) (y (.) y))) (/) 2520,
                 RNeg((((y (.) y) (.) (y (.) y)) (.) y) (/) 320) >>)
LOCAL Exact(l, x) ==
  ((x (-) (2 (.) Ramp(l, x))) (+) Ramp(2 (.) l, x)) (/) (l (.) l)
LOCAL Squared(l, x) ==
  IF RLt(RAbs(l (.) x), "0.01") THEN Powers(l, x) ELSE Exact(l, x)
HwBondVariance(l, n, s1, s2, T) ==
  IF REq(s1, s2) THEN "0.0"
  ELSE (n (.) n) (.) (Squared(l, T (-) s1) (-) Squared(l, T (-) s2))

\* Bond price at t and rate r, matching today's curve (prices p0t and p0T,
\* instantaneous forward f at t)
HwBond(l, n, t, T, r, p0t, p0T, f) ==
  LET b == HwB(l, t, T) IN
  (p0T (/) p0t)
    (.) RExp((b (.) (r (-) f))
               (-) (("0.5" (.) HwRateVariance(l, n, 0, t)) (.) (b (.) b)))
=============================================================================
