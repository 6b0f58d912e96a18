-------------------------------- MODULE Chf ---------------------------------
(***************************************************************************)
(* Forward characteristic functions of the exchange-rate hybrids, rates    *)
(* linearised: E exp(iu ln F_T) = exp(A + iu x + C v + Dd vd + Df vf) seen *)
(* T from the end, u complex, b = iu, bb = b^2 - b.                        *)
(*   C' = bb/2 + (g r b - k) C + g^2/2 C^2         exchange-rate variance  *)
(*   D' = A_j bb/2 - l D + e^2/2 D^2               each side's variance    *)
(*   A' = k th C + l v0 (Dd + Df) + bb f/2         and the rest            *)
(***************************************************************************)
EXTENDS Hybrid, HullWhite, SequencesExt, FiniteSets

LOCAL a ++ b == CAdd(a, b)
LOCAL a -- b == CSub(a, b)
LOCAL a ** b == CMul(a, b)
LOCAL a // b == CDiv(a, b)

Iu(u) == <<"0", "1">> ** u
Bb(u) == (Iu(u) ** Iu(u)) -- Iu(u)

\* ln(1 + z)/z
LOCAL LogOver(z) ==
  IF RLt(CAbs(z), "0.001")
  THEN FoldLeft(LAMBDA s, k : (1 (/) k) -- (z ** s), "0", [k \in 1..7 |-> 8 - k])
  ELSE CLn(1 ++ z) // z

(* y' = p - 2q y + n y^2 from y0 for a time s: y and its integral.  With   *)
(* w = sqrt(q^2 - n p) the fixed point is r = p/(q + w) = (q - w)/n, which *)
(* y approaches like e^(-2ws).                                             *)
Riccati(p, q, n, y0, s) ==
  LET w == TLCEval(CSqrt((q ** q) -- (n ** p)))
      r == TLCEval(IF RLt(CAbs(q -- w), CAbs(q ++ w)) THEN p // (q ++ w) ELSE (q -- w) // n)
      m == TLCEval(r -- y0)
      o == TLCEval((q ++ w) -- (n ** y0))
      e == TLCEval(CExp(RNeg(2 (.) s) ** w))
      g == TLCEval((m ** (1 -- e)) // (2 ** w))
  IN IF RLe(s, 0) THEN <<y0, "0">>
     ELSE << y0 ++ (((m ** o) ** (1 -- e)) // (o -- ((n ** m) ** e))),
             (r ** s) -- (g ** LogOver(n ** g)) >>

\* C and its integral: p = bb/2, 2q = k - g r b, n = g^2/2
Heston(h, rho, u, tau) ==
  Riccati(Bb(u) // 2, (h.k -- ((h.g (.) rho) ** Iu(u))) // 2, (h.g (.) h.g) (/) 2, "0", tau)
\* one side's D and its integral while the rate of b^2 (c^2) is a
Side(side, u, a, d0, s) ==
  Riccati((a ** Bb(u)) // 2, side.l (/) 2, (side.e (.) side.e) (/) 2, d0, s)

LOCAL Simpson(n, h, F(_)) ==     \* n even
  (h (/) 3) ** FoldLeft(LAMBDA s, k : s ++ ((IF k \in {0, n} THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2) ** F(k)),
                        "0", [k \in 1..(n + 1) |-> k - 1])
LOCAL SimpsonR(n, h, F(_)) ==
  (h (/) 3) (.) RSum([k \in 1..(n + 1) |-> (IF k \in {1, n + 1} THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2) (.) F(k - 1)])

----------------------------------------------------- \* short rates (HHW1)
(* p = [x, h, ld, nd, lf, nf, rd, rf, c: <<xs, xd, xf, sd, sf, df>>]       *)
(* A' = C (k th + g phi (r_sd Vd (1 - b) + r_sf Vf b)) - bb Z, where Vd, Vf*)
(* are the bonds' volatilities n B, phi the mean root and Z the rest of    *)
(* minus half the forward's variance rate.                                 *)
ShortAccepts(n) == n >= 2 /\ n % 2 = 0
\* what does not depend on u: at T - s, <<phi, Vd, Vf, Z>>
LOCAL Still(p, T, s) ==
  LET t == T (-) s
      phi == TLCEval(CirRootMean(p.h, t))
      vd == TLCEval(p.nd (.) HwB(p.ld, t, T))
      vf == TLCEval(p.nf (.) HwB(p.lf, t, T))
  IN << phi, vd, vf,
        (((((p.c[2] (.) vd) (-) (p.c[3] (.) vf)) (.) phi) (+) (p.c[6] (.) (vd (.) vf)))
           (-) (((vd (.) vd) (+) (vf (.) vf)) (/) 2)) >>
\* the quadrature's grid, for a time tau from the end
ShortGrid(p, T, tau, n) == [k \in 1..(n + 1) |-> TLCEval(Still(p, T, tau (.) ((k - 1) (/) n)))]
ShortA(p, u, tau, n, grid) ==
  LET b == Iu(u)
      F(k) == LET q == grid[k + 1]
                  c == Heston(p.h, p.c[1], u, tau (.) (k (/) n))[1]
                  m == (p.h.g (.) q[1]) ** ((((p.c[4] (.) q[2]) ** (1 -- b))) ++ ((p.c[5] (.) q[3]) ** b))
              IN (c ** ((p.h.k (.) p.h.th) ++ m)) -- (Bb(u) ** q[4])
  IN IF RLe(tau, 0) THEN <<"0", "0">> ELSE Simpson(n, tau (/) n, F)
ShortForward(p, T) == p.x (.) RExp((p.rd (-) p.rf) (.) T)
ShortChf(p, u, T, a) ==
  CExp((a ++ (Iu(u) ** RLn(ShortForward(p, T)))) ++ (Heston(p.h, p.c[1], u, T)[1] ** p.h.s0))

-------------------------------- \* term rates (HLMM1: libor, FMM1: market)
\* The dates between now and the end split the time left, last part first;
\* a forward market's parts are split further.  A part is <<from, to>>.
LOCAL Marks(p, T, libor) ==
  LET S == {k \in 0..(Len(p.R) - (IF libor THEN 1 ELSE 0)) : RLt(0, At(p, k)) /\ RLt(At(p, k), T)}
  IN [i \in 1..(Cardinality(S) + 2) |->
        IF i = 1 THEN "0.0" ELSE IF i = Cardinality(S) + 2 THEN T
        ELSE T (-) At(p, CHOOSE k \in S : Cardinality({j \in S : j >= k}) = i - 1)]
Parts(p, T, sub, libor) ==
  LET m == Marks(p, T, libor)
      n == IF libor THEN 1 ELSE sub
      Cut(i, j) == m[i] (+) ((m[i + 1] (-) m[i]) (.) (j (/) n))
  IN [x \in 1..(n * (Len(m) - 1)) |->
        LET i == ((x - 1) \div n) + 1
            j == (x - 1) % n
        IN << Cut(i, j), IF j + 1 = n THEN m[i + 1] ELSE Cut(i, j + 1) >>]
LOCAL First(p, t, libor) == IF libor THEN FirstDate(p, t) + 1 ELSE Eta(p, t)
LOCAL Psi(p, side, t, libor) == IF libor THEN LiborPsi(p, side) ELSE MarketPsi(p, side, t)
\* what does not depend on u in a part: <<length, A_d, A_f, integral of f, of |f|'s terms>>
Fixings(p, T, parts, n, libor) ==
  [x \in 1..Len(parts) |->
     LET from == parts[x][1]
         len == parts[x][2] (-) from
         mid == T (-) ((from (+) parts[x][2]) (/) 2)
         first == First(p, mid, libor)
         Cross(k) == LET t == T (-) (from (+) (len (.) (k (/) n))) IN
                     Crossings(p, Psi(p, p.d, t, libor), Psi(p, p.f, t, libor), first, t)
         c == TLCEval([k \in 1..(n + 1) |-> TLCEval(Cross(k - 1))])
         F(k) == Crossed(c[k + 1])
         G(k) == (RAbs(c[k + 1][1]) (+) RAbs(c[k + 1][2])) (+) RAbs(c[k + 1][3])
     IN TLCEval(<< len, Squared(Psi(p, p.d, mid, libor), p.d.c, first), Squared(Psi(p, p.f, mid, libor), p.f.c, first),
           SimpsonR(n, len (/) n, F), SimpsonR(n, len (/) n, G) >>)]
\* <<A, C, Dd, Df>> at the start, given Fixings
TermParts(p, u, T, fix) ==
  LET h == TLCEval(Heston(p.h, p.c.xs, u, T))
      Walk(s, q) ==
        LET d == TLCEval(Side(p.d, u, q[2], s[1], q[1]))
            f == TLCEval(Side(p.f, u, q[3], s[2], q[1]))
        IN TLCEval(<< d[1], f[1],
              ((s[3] ++ ((p.d.l (.) p.d.v0) ** d[2])) ++ ((p.f.l (.) p.f.v0) ** f[2])) ++ ((q[4] (/) 2) ** Bb(u)) >>)
      e == FoldLeft(Walk, << <<"0", "0">>, <<"0", "0">>, <<"0", "0">> >>, fix)
  IN << e[3] ++ ((p.h.k (.) p.h.th) ** h[2]), h[1], e[1], e[2] >>
\* Both sides start from one curve, so the forward is the spot
TermChf(p, u, q) ==
  CExp(((q[1] ++ (Iu(u) ** RLn(p.x))) ++ (q[2] ** p.h.s0)) ++ ((q[3] ** p.d.v0) ++ (q[4] ** p.f.v0)))
TermAccepts(p, T, sub, n, libor) ==
  /\ RLt(0, T) /\ n >= 2 /\ n % 2 = 0 /\ sub >= 1
  /\ IF libor THEN LiborAccepts(p) ELSE MarketAccepts(p)
=============================================================================
