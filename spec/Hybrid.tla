------------------------------- MODULE Hybrid -------------------------------
(***************************************************************************)
(* An exchange rate with a term-rate model in each currency, rates frozen  *)
(* where they start: what its forward's variance rate is made of.          *)
(*   p = [h: FX Heston variance, T: tenor, R: rates,                       *)
(*        d, f: sides [s, c, l: mean reversion, e: vol of variance, v0],   *)
(*        c: [xs, xd, xf, df]]                                             *)
(* The forward moves by a = sqrt(v) dWx, b = sum of the domestic bonds'    *)
(* noise psi_j dWj and c that of the foreign ones; A_d and A_f are the     *)
(* rates of b^2 and c^2, and f that of 2ab - 2ac - 2bc with square roots   *)
(* of variances at their means.  Rates before n have fixed.                *)
(***************************************************************************)
EXTENDS Fmm, Cir

LOCAL From(n, q) == {j \in 1..Len(q) : j >= n}
\* Libor: lognormal, one vol until it fixes at its start
LiborPsi(p, side) ==
  [j \in 1..Len(p.R) |->
     LET x == Tau(p, j) (.) p.R[j] IN (x (.) side.s[j]) (/) (1 (+) x)]
\* Forward market: normal, fading while it fixes
FreshPsi(p, side) ==
  [j \in 1..Len(p.R) |-> ((Tau(p, j) (.) side.s[j]) (/) (1 (+) (Tau(p, j) (.) p.R[j])))]
MarketPsi(p, side, t) ==
  [j \in 1..Len(p.R) |-> (FreshPsi(p, side)[j] (.) Gamma(p, j, t))]

\* the square of a sum of correlated noises from n on
Squared(psi, c, n) ==
  RSum([i \in 1..Len(psi) |-> IF i < n THEN "0"
        ELSE psi[i] (.) RSum([j \in 1..Len(psi) |-> IF j < n THEN "0" ELSE psi[j] (.) c[i][j]])])
LOCAL Along(psi, c, n) == RSum([j \in 1..Len(psi) |-> IF j < n THEN "0" ELSE psi[j] (.) c[j]])
SideVariance(side) == [k |-> side.l, th |-> side.v0, g |-> side.e, s0 |-> side.v0]
\* the rates of 2ab, 2ac and 2bc
Crossings(p, psid, psif, n, t) ==
  LET x == CirRootMean(p.h, t)
      d == CirRootMean(SideVariance(p.d), t)
      f == CirRootMean(SideVariance(p.f), t)
      bc == RSum([i \in 1..Len(psid) |-> IF i < n THEN "0" ELSE psid[i] (.) Along(psif, p.c.df[i], n)])
  IN IF n > Len(psid) THEN <<"0", "0", "0">>
     ELSE <<(2 (.) (x (.) d)) (.) Along(psid, p.c.xd, n), (2 (.) (x (.) f)) (.) Along(psif, p.c.xf, n), (2 (.) (d (.) f)) (.) bc>>
Crossed(q) == (q[1] (-) q[2]) (-) q[3]

\* Libors not yet fixed at t: those after the first date at or past t
FirstDate(p, t) ==
  LET S == {k \in 0..Len(p.R) : RLe(t, At(p, k))} IN
  IF S = {} THEN Len(p.R) ELSE CHOOSE k \in S : \A j \in S : k <= j

LOCAL Unit(q, n) == Len(q) = n /\ \A i \in 1..Len(q) : RLe(RAbs(q[i]), "1.000000000001")
SideAccepts(side, n, sized) ==
  /\ Len(side.s) = n /\ (sized => \A i \in 1..Len(side.s) : RFinite(side.s[i]) /\ RLe(0, side.s[i]))
  /\ side.nb = n
  /\ SoundCorr(side.c, n)
  /\ RLt(0, side.l) /\ RLt(0, side.e) /\ RLt(0, side.v0)
CrossAccepts(c, n, variances) ==
  /\ RLe(RAbs(c.xs), "1.000000000001")
  /\ Unit(c.xd, n) /\ Unit(c.xf, n)
  /\ variances => Unit(c.sd, n) /\ Unit(c.sf, n)
  /\ Len(c.df) = n /\ \A i \in 1..Len(c.df) : Unit(c.df[i], n)
LiborAccepts(p) == SideAccepts(p.d, Len(p.R), FALSE) /\ SideAccepts(p.f, Len(p.R), FALSE) /\ CrossAccepts(p.c, Len(p.R), FALSE)
MarketAccepts(p) == SideAccepts(p.d, Len(p.R), TRUE) /\ SideAccepts(p.f, Len(p.R), TRUE) /\ CrossAccepts(p.c, Len(p.R), TRUE)
LiborTenorAccepts(T, R) ==
  /\ Len(T) = Len(R) + 1 /\ RLe(0, T[1])
  /\ \A i \in 2..Len(T) : RLt(T[i - 1], T[i])
=============================================================================
