-------------------------------- MODULE Sabr --------------------------------
(***************************************************************************)
(* The lognormal volatility that SABR implies (Hagan, Kumar, Lesniewski    *)
(* and Woodward 2002, A.69).  Parameters are [a, b, r, n]: alpha, beta,    *)
(* rho, nu.                                                                *)
(***************************************************************************)
EXTENDS RealMath

SabrValid(p) == /\ RLt(0, p.a) /\ RLe(0, p.b) /\ RLe(p.b, 1)
                /\ RLt(-1, p.r) /\ RLt(p.r, 1) /\ RLe(0, p.n)

\* By the geometric mean of forward and strike to the power 1 - beta
LOCAL Spread(p, f, k) == RPow(f (.) k, (1 (-) p.b) (/) 2)
LOCAL Drift(p, m, T) ==
  LET c == 1 (-) p.b
      x == p.a (/) m IN
  1 (+) (T (.) RSum(<< ((c (.) c) (.) (x (.) x)) (/) 24,
                       (((p.r (.) p.b) (.) p.n) (.) x) (/) 4,
                       ((2 (-) (3 (.) (p.r (.) p.r))) (.) (p.n (.) p.n)) (/) 24 >>))

SabrZ(p, f, k) == ((p.n (/) p.a) (.) Spread(p, f, k)) (.) RLn(f (/) k)

\* z/x(z), whose limit at zero is one
LOCAL Ratio(r, z) ==
  IF RLt(RAbs(z), "1e-4")
  THEN (1 (-) ((r (.) z) (/) 2)) (+) (((2 (-) (3 (.) (r (.) r))) (.) (z (.) z)) (/) 12)
  ELSE \* x = ln((w + z - r)/(1 - r)), w^2 = 1 - 2 r z + z^2, which is odd in
       \* z and r together; without losing what its argument has beyond 1
       LET y == RAbs(z)
           c == IF RLt(z, 0) THEN RNeg(r) ELSE r
           w == RSqrt((1 (-) (2 (.) (c (.) y))) (+) (y (.) y)) IN
       y (/) RLn1p((y (.) (((w (+) 1) (+) y) (-) (2 (.) c))) (/) ((w (+) 1) (.) (1 (-) c)))

HaganVol(p, f, k, T) ==
  LET m  == Spread(p, f, k)
      c  == 1 (-) p.b
      y  == (c (.) RLn(f (/) k)) (.) (c (.) RLn(f (/) k))
      den == RSum(<<1, y (/) 24, (y (.) y) (/) 1920>>)
  IN ((p.a (/) (m (.) den)) (.) Ratio(p.r, SabrZ(p, f, k))) (.) Drift(p, m, T)

HaganAtm(p, f, T) ==
  LET m == RPow(f, 1 (-) p.b) IN (p.a (/) m) (.) Drift(p, m, T)
=============================================================================
