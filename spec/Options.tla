------------------------------ MODULE Options ------------------------------
(* Prices of European options on a forward, by total variance v.           *)
EXTENDS RealMath

Omega(type) == IF type \in {"call", "cap"} THEN 1 ELSE -1

Intrinsic(type, f, k) == RMax(0, RMul(Omega(type), RSub(f, k)))

(* Lognormal (Black), times the discount factor.                           *)
D1(f, k, v) == RDiv(RAdd(RLn(RDiv(f, k)), RMul("0.5", v)), RSqrt(v))
Black(type, f, k, v, df) ==
  IF RLe(v, 0) THEN RMul(df, Intrinsic(type, f, k))
  ELSE LET w  == Omega(type)
           d1 == D1(f, k, v)
           d2 == RSub(d1, RSqrt(v))
       IN RMul(df, RMul(w, RSub(RMul(f, RNormCdf(RMul(w, d1))),
                                RMul(k, RNormCdf(RMul(w, d2))))))

(* Normal (Bachelier), undiscounted.                                       *)
Bachelier(type, f, k, v) ==
  IF RLe(v, 0) THEN Intrinsic(type, f, k)
  ELSE LET w == Omega(type)
           r == RSqrt(v)
           d == RDiv(RMul(w, RSub(f, k)), r)
       IN RMul(r, RAdd(RNormPdf(d), RMul(d, RNormCdf(d))))

(* Its derivative by total variance.                                       *)
BachelierVega(f, k, v) ==
  IF RLe(v, 0) THEN "0.0"
  ELSE RNormPdf((f (-) k) (/) RSqrt(v)) (/) (2 (.) RSqrt(v))

(* The volatilities a Black price may imply: those in 1e-8 .. 5 that       *)
(* reprice it to within tol; none when no volatility there can.            *)
LeastVol == "1e-8"
MostVol  == 5
BlackVol(type, f, k, s, t, df) == Black(type, f, k, (s (.) s) (.) t, df)
Attainable(type, f, k, t, df, tol, p) ==
  /\ RLe(BlackVol(type, f, k, LeastVol, t, df) (-) tol, p)
  /\ RLe(p, BlackVol(type, f, k, MostVol, t, df) (+) tol)
Implies(type, f, k, t, df, tol, p, s) ==
  /\ RLe(LeastVol, s) /\ RLe(s, MostVol)
  /\ RLe(RAbs(BlackVol(type, f, k, s, t, df) (-) p), tol)
=============================================================================
