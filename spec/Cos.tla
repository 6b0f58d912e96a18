-------------------------------- MODULE Cos ---------------------------------
(***************************************************************************)
(* Option prices from the characteristic function phi of y = ln F_T, by    *)
(* the cosine series of its density on [lo, hi] with n terms               *)
(*   f(y) = 2/(hi-lo) sum' Re(phi(w_k) e^(-i w_k lo)) cos(w_k (y - lo)),   *)
(* w_k = k pi/(hi - lo).  The density counts as nothing elsewhere.         *)
(***************************************************************************)
EXTENDS RealMath, SequencesExt

LOCAL Pi == "3.141592653589793"
Frequency(lo, hi, k) == (k (.) Pi) (/) (hi (-) lo)
\* the integrals over c..d of e^y cos(w (y - lo)) and cos(w (y - lo))
LOCAL GrowingCos(w, lo, c, d) ==
  LET At(y) == RExp(y) (.) (RCos(w (.) (y (-) lo)) (+) (w (.) RSin(w (.) (y (-) lo))))
  IN (At(d) (-) At(c)) (/) (1 (+) (w (.) w))
LOCAL LevelCos(w, lo, c, d) ==
  IF REq(w, 0) THEN d (-) c ELSE (RSin(w (.) (d (-) lo)) (-) RSin(w (.) (c (-) lo))) (/) w
LOCAL Within(x, lo, hi) == RMax(lo, RMin(x, hi))
\* phi: a sequence, phi at frequency k - 1
CosPrice(type, strike, df, lo, hi, phi) ==
  LET x == Within(RLn(strike), lo, hi)
      c == IF type = "call" THEN x ELSE lo
      d == IF type = "call" THEN hi ELSE x
      sign == IF type = "call" THEN 1 ELSE -1
      Term(k) ==
        LET w == Frequency(lo, hi, k)
            v == sign (.) (GrowingCos(w, lo, c, d) (-) (strike (.) LevelCos(w, lo, c, d)))
            f == CRe(CMul(phi[k + 1], CExp(<<"0", RNeg(w (.) lo)>>)))
        IN (IF k = 0 THEN "0.5" ELSE "1") (.) (f (.) v)
  IN (df (.) (2 (/) (hi (-) lo))) (.) RSum([k \in 1..Len(phi) |-> Term(k - 1)])
\* the scale of the terms, for rounding
CosScale(strike, df, lo, hi) == (df (.) 2) (.) (RExp(hi) (+) strike)

\* The range when none is given: ten standard deviations to each side, of the
\* long-run variance or, if more, the average one until then
HestonVariance(h, T) ==
  LET x == h.k (.) T IN
  IF RLe(h.s0, h.th) THEN h.th
  ELSE h.th (-) (((h.s0 (-) h.th) (.) RExpm1(RNeg(x))) (/) x)
DefaultRange(x, variance, T) ==
  LET w == 10 (.) RMax(RSqrt(variance (.) T), "1e-6") IN <<x (-) w, x (+) w>>
=============================================================================
