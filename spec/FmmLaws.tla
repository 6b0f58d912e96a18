------------------------------ MODULE FmmLaws -------------------------------
(***************************************************************************)
(* No arbitrage in the forward market model of Fmm.tla, checked by         *)
(* quadrature over the draws of one short step from states the model       *)
(* reaches: the bank account grows with no noise of first order, every     *)
(* bond over it keeps its expectation, and with an exchange rate so does   *)
(* every foreign bond over the foreign account, in the foreign measure.    *)
(***************************************************************************)
EXTENDS Fmm, Conform, FiniteSets

CONSTANT Sets
VARIABLES i, when
vars == <<i, when>>

Node(k)   == <<"-1.7320508075688772", "0", "1.7320508075688772">>[k]
Weight(k) == <<"0.16666666666666666", "0.6666666666666666", "0.16666666666666666">>[k]
Draw(d, n) == [j \in 1..d |-> Node(((n \div 3^(j - 1)) % 3) + 1)]
Chance(d, n) == FoldLeft(LAMBDA a, j : a (.) Weight(((n \div 3^(j - 1)) % 3) + 1), "1", Upto(d))

Spread(k, lo, hi) == lo (+) ((hi (-) lo) (.) (((i * 7919 + k * 104729) % 997) (/) 997))
Curve(T) == RExp(RNeg((Spread(30, "-0.01", "0.06") (.) T) (+) (Spread(31, "0", "0.01") (.) (T (.) T))))
rho == Spread(1, "-0.3", "0.3")
Tenor == <<"0", "0.5", "1.25">>
Side(k) ==
  [T |-> Tenor, R |-> <<Spread(k, "-0.01", "0.08"), Spread(k + 1, "-0.01", "0.08")>>,
   s |-> <<Spread(k + 2, "0.01", "0.1"), Spread(k + 3, "0.01", "0.1")>>,
   c |-> << <<"1", rho>>, <<rho, "1">> >>,
   b |-> IF i % 2 = 0 THEN <<>> ELSE <<Spread(k + 4, 0, 1), Spread(k + 5, 0, 1)>>,
   sch |-> CASE i % 3 = 0 -> [k |-> "none"]
             [] i % 3 = 1 -> [k |-> "short-rate", v |-> Spread(k + 6, "0.005", "0.03"), a |-> Spread(k + 7, "-0.1", "0.5")]
             [] i % 3 = 2 -> [k |-> "steps", q |-> << << <<"0", Spread(k + 8, "0.01", "0.1")>>, <<"0.3", Spread(k + 9, "0.01", "0.1")>> >>,
                                                     << <<"0", Spread(k + 10, "0.01", "0.1")>> >> >>]]
P == Side(2)
\* a state some way along: at the start, inside the first period, inside the second
Along(z) == CASE when = 1 -> FmmStart(P)
              [] when = 2 -> FmmMove(P, FmmMove(P, FmmStart(P), "0.1", z), "0.15", <<z[2], z[1]>>)
              [] when = 3 -> FmmMove(P, FmmMove(P, FmmMove(P, FmmStart(P), "0.2", z), "0.31", z), "0.2", <<z[2], z[1]>>)
dt == "0.0001"
S0 == TLCEval(Along(<<Spread(20, -1, 1), Spread(21, -1, 1)>>))
Maturities == {"0.2", "0.5", "0.9", "1.25"}
Lawful ==
  LET b0 == Bank(P, S0, Curve)
      next == TLCEval([n \in 1..9 |-> FmmMove(P, S0, dt, Draw(2, n - 1))])
      bank == TLCEval([n \in 1..9 |-> Bank(P, next[n], Curve)])
      grown == RSum([n \in 1..9 |-> Chance(2, n - 1) (.) bank[n]])
  IN /\ \A n \in 1..9 :
          Report(RClose(bank[n], grown, "1e-6", "0"), "account " \o ToString(<<i, when, n>>), ToString(<<bank[n], grown>>))
     /\ \A T \in Maturities :
          RLt(next[1].t, T) =>
            LET want == Bond(P, S0, T, Curve) (/) b0
                got == RSum([n \in 1..9 |-> Chance(2, n - 1) (.) (Bond(P, next[n], T, Curve) (/) bank[n])])
            IN Report(RClose(got, want, "1e-10", "0"), "bond " \o ToString(<<i, when, T>>), ToString(<<got, want>>))

\* Exchange rate: p.d and p.f share the tenor
FP == [x |-> "1.3", h |-> [k |-> Spread(40, "0.2", 3), th |-> Spread(41, "0.02", "0.2"), g |-> Spread(42, "0.05", "0.8"), s0 |-> Spread(43, "0.02", "0.2")],
       d |-> [v0 |-> "1.3"] @@ Side(2), f |-> [v0 |-> "0.8"] @@ Side(44),
       c |-> [xs |-> Spread(55, "-0.3", "0.3"), xd |-> <<"0.1", "-0.1">>, xf |-> <<Spread(56, "-0.3", "0.3"), Spread(57, "-0.3", "0.3")>>,
              sd |-> <<"0.1", "0.05">>, sf |-> <<"-0.1", "0.1">>, df |-> << <<"0.2", "0.1">>, <<"0.05", "0.15">> >>]]
L == TLCEval(Cholesky(Joint(FP)))
FxAlong(z) == CASE when = 1 -> FxFmmStart(FP)
                [] when = 2 -> FxFmmMove(FP, L, FxFmmMove(FP, L, FxFmmStart(FP), "0.1", z), "0.15", z)
                [] when = 3 -> FxFmmMove(FP, L, FxFmmMove(FP, L, FxFmmMove(FP, L, FxFmmStart(FP), "0.2", z), "0.31", z), "0.2", z)
FxS0 == TLCEval(FxAlong([k \in 1..6 |-> Spread(57 + k, "-0.7", "0.7")]))
FSide(s) == [t |-> s.t] @@ s.f
FxLawful ==
  LET next == TLCEval([n \in 1..729 |-> TLCEval(FxFmmMove(FP, L, FxS0, dt, Draw(6, n - 1)))])
      ch == TLCEval([n \in 1..729 |-> Chance(6, n - 1)])
      bank == TLCEval([n \in 1..729 |-> Bank(FP.f, FSide(next[n]), Curve)])
      ex == RSum([n \in 1..729 |-> ch[n] (.) next[n].x])
  IN \A T \in Maturities :
       RLt(next[1].t, T) =>
         LET want == Bond(FP.f, FSide(FxS0), T, Curve) (/) Bank(FP.f, FSide(FxS0), Curve)
             got == RSum([n \in 1..729 |-> ch[n] (.) (next[n].x (.) (Bond(FP.f, FSide(next[n]), T, Curve) (/) bank[n]))]) (/) ex
         IN Report(RClose(got, want, "3e-9", "0"), "foreign bond " \o ToString(<<i, when, T>>), ToString(<<got, want>>))

NoArbitrage == Lawful /\ FxLawful
Init == i = 1 /\ when \in 1..3
Next == i < Sets /\ i' = i + 1 /\ when' = when
Spec == Init /\ [][Next]_vars
=============================================================================
