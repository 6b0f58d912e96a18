------------------------------ MODULE ChfLaws -------------------------------
(***************************************************************************)
(* What a characteristic function of Chf.tla must satisfy, over random     *)
(* models: its coefficients solve their equations, at no frequency it is   *)
(* one and at -i the forward, its logarithm's curvature is the forward's   *)
(* variance, and the prices of Cos.tla are expectations.                   *)
(***************************************************************************)
EXTENDS Chf, Cos, Options, Conform

CONSTANT Sets
VARIABLES i, m, judged     \* the set and what is drawn in it
H == m.h
rho == m.rho
U == m.u
ShortP == m.short
TermP == m.term
LOCAL a ++ b == CAdd(a, b)
LOCAL a -- b == CSub(a, b)
LOCAL a ** b == CMul(a, b)
LOCAL a // b == CDiv(a, b)

Spread(k, lo, hi) == lo (+) ((hi (-) lo) (.) (((i * 7919 + k * 104729) % 997) (/) 997))
DrawnH == [k |-> Spread(1, "0.1", 4), th |-> Spread(2, "0.01", "0.3"), g |-> IF i % 7 = 0 THEN "1e-7" ELSE Spread(3, "0.05", "1.2"),
      s0 |-> Spread(4, "0.01", "0.3")]
DrawnRho == Spread(5, "-0.7", "0.7")
DrawnU == <<Spread(6, -8, 8), IF i % 2 = 0 THEN "0" ELSE RNeg(Spread(7, 0, 1))>>
Close(what, got, want, rel, abs) == Report(CClose(got, want, rel, abs), what \o ToString(<<i, U>>), ToString(<<got, want>>))

\* y' = p - 2q y + n y^2, by the central difference at s, and the integral's
Solves(what, p, q, n, y0, s) ==
  LET d == "1e-5"
      Y(x) == TLCEval(Riccati(p, q, n, y0, x))
      y == Y(s)
      up == Y(s (+) d)
      down == Y(s (-) d)
      want == (p -- ((2 ** q) ** y[1])) ++ (n ** (y[1] ** y[1]))
  IN /\ Close(what \o " slope ", (up[1] -- down[1]) // (2 (.) d), want, "1e-6", "1e-6")
     /\ Close(what \o " integral ", (up[2] -- down[2]) // (2 (.) d), y[1], "1e-6", "1e-6")
     /\ Close(what \o " start ", Y("1e-12")[1], y0, "0", "1e-9" (.) (1 (+) CAbs(p)))
Solved ==
  LET s == Spread(8, "0.1", 4) IN
  /\ Solves("C", Bb(U) // 2, (H.k -- ((H.g (.) rho) ** Iu(U))) // 2, (H.g (.) H.g) (/) 2, "0", s)
  /\ Solves("D", (Spread(9, "0", "0.02") ** Bb(U)) // 2, H.k (/) 2, (H.g (.) H.g) (/) 2,
            <<RNeg(Spread(10, 0, 3)), Spread(11, -3, 3)>>, s)

\* Hybrids on short rates and on term rates
DrawnShort == [x |-> "1.3", h |-> DrawnH, ld |-> Spread(12, 0, 1), nd |-> Spread(13, "0.001", "0.03"), lf |-> Spread(14, 0, 1),
           nf |-> Spread(15, "0.001", "0.03"), rd |-> Spread(16, "-0.01", "0.08"), rf |-> Spread(17, "-0.01", "0.08"),
           c |-> <<DrawnRho>> \o [k \in 1..5 |-> Spread(17 + k, "-0.3", "0.3")]]
LOCAL SideOf(k) == [s |-> <<Spread(k, "0.001", "0.03"), Spread(k + 1, "0.001", "0.03")>>, c |-> << <<"1", "0.4">>, <<"0.4", "1">> >>,
               l |-> Spread(k + 2, "0.2", 3), e |-> Spread(k + 3, "0.05", "1.2"), v0 |-> Spread(k + 4, "0.3", 2), nb |-> 2]
DrawnTerm == [x |-> "1.3", h |-> DrawnH, T |-> <<"0", "0.7", "1.5">>, R |-> <<Spread(30, "-0.01", "0.08"), Spread(31, "-0.01", "0.08")>>,
          d |-> SideOf(32), f |-> SideOf(40),
          c |-> [xs |-> DrawnRho, xd |-> <<Spread(50, "-0.3", "0.3"), Spread(51, "-0.3", "0.3")>>, xf |-> <<Spread(52, "-0.3", "0.3"), Spread(53, "-0.3", "0.3")>>,
                 df |-> << <<Spread(54, "-0.3", "0.3"), "0.1">>, <<"0.05", Spread(55, "-0.3", "0.3")>> >>]]
Functional(what, forward, F(_)) ==
  LET one == F(<<"0", "0">>)
      mean == F(<<"0", "-1">>)
      w == TLCEval(<<CRe(U), "0">>)
      z == F(w)
  IN /\ Close(what \o " at 0 ", one, "1", "1e-11", "0")
     /\ Close(what \o " at -i ", mean, forward, "1e-8", "0")
     /\ Close(what \o " mirrored ", F(<<RNeg(CRe(U)), "0">>), <<CRe(z), RNeg(CIm(z))>>, "1e-10", "1e-13")
     /\ Report(RLe(CAbs(z), "1.0000001"), what \o " bounded " \o ToString(i), ToString(z))
Hybrids ==
  LET grid == TLCEval(ShortGrid(ShortP, "1.5", "1.5", 16))
      S(u) == TLCEval(ShortChf(ShortP, u, "1.5", ShortA(ShortP, u, "1.5", 16, grid)))
      F(libor) == TLCEval(Fixings(TermP, "1.5", Parts(TermP, "1.5", 2, libor), 4, libor))
      l == TLCEval(F(TRUE))
      n == TLCEval(F(FALSE))
      L(u) == TLCEval(TermChf(TermP, u, TermParts(TermP, u, "1.5", l)))
      G(u) == TLCEval(TermChf(TermP, u, TermParts(TermP, u, "1.5", n)))
  IN /\ Functional("short", ShortForward(ShortP, "1.5"), S)
     /\ Functional("libor", TermP.x, L)
     /\ Functional("market", TermP.x, G)

\* No volatility of any variance: the log-forward is normal, with the variance
\* of its parts.  -ln|phi(1)| is half of it.
Gaussian ==
  LET T == "1.5"
      h == [k |-> H.k, th |-> H.th, g |-> "0", s0 |-> H.th]
      p == [ShortP EXCEPT !.h = h]
      grid == ShortGrid(p, T, T, 64)
      x == RSqrt(H.th)
      \* the forward's vols at t: exchange rate, domestic bond, foreign bond
      V(t) == <<x, RNeg(p.nd (.) HwB(p.ld, t, T)), p.nf (.) HwB(p.lf, t, T)>>
      R == << <<"1", p.c[2], p.c[3]>>, <<p.c[2], "1", p.c[6]>>, <<p.c[3], p.c[6], "1">> >>
      Q(t) == LET v == V(t) IN RSum([j \in 1..3 |-> v[j] (.) RSum([k \in 1..3 |-> v[k] (.) R[j][k]])])
      \* the middles of a thousand parts
      want == RSum([k \in 1..200 |-> Q(T (.) ((2 * k - 1) (/) 400))]) (.) (T (/) 200)
      got == RLn(CAbs(ShortChf(p, <<"1", "0">>, T, ShortA(p, <<"1", "0">>, T, 64, grid)))) (.) "-2"
  IN Report(RClose(got, want, "1e-4", "1e-9"), "variance " \o ToString(i), ToString(<<got, want>>))

\* A normal law's series gives Black's price, and parity whatever the strike
Priced ==
  LET x == Spread(60, -2, 3)
      v == Spread(61, "0.0004", "0.3")
      s == RSqrt(v)
      lo == x (-) (10 (.) s)
      hi == x (+) (10 (.) s)
      phi == TLCEval([k \in 1..64 |-> LET w == Frequency(lo, hi, k - 1) IN CExp(<<RNeg(((w (.) w) (.) v) (/) 2), w (.) x>>)])
      f == RExp(x (+) (v (/) 2))
      tol == "1e-9" (.) RExp(hi)
  IN \A n \in 0..8 :
       LET k == RExp(x (+) ((n - 4) (.) (4 (.) s)))
           call == CosPrice("call", k, "0.9", lo, hi, phi)
           put == CosPrice("put", k, "0.9", lo, hi, phi) IN
       /\ Report(RClose(call, Black("call", f, k, v, "0.9"), "0", tol), "call " \o ToString(<<i, n>>), ToString(<<call, Black("call", f, k, v, "0.9")>>))
       /\ Report(RClose(put, Black("put", f, k, v, "0.9"), "0", tol), "put " \o ToString(<<i, n>>), ToString(<<put, Black("put", f, k, v, "0.9")>>))
Lawful == Solved /\ Hybrids /\ Gaussian /\ Priced
Init == /\ i \in 1..Sets
        /\ m = [h |-> DrawnH, rho |-> DrawnRho, u |-> DrawnU, short |-> DrawnShort, term |-> DrawnTerm]
        /\ judged = FALSE
Next == ~judged /\ Lawful /\ judged' = TRUE /\ UNCHANGED <<i, m>>
Spec == Init /\ [][Next]_<<i, m, judged>>
=============================================================================
