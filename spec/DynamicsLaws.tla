---------------------------- MODULE DynamicsLaws ----------------------------
(***************************************************************************)
(* What the transition rules of Dynamics.tla must amount to, whatever the  *)
(* parameters: expectations over all draws, which three-point quadrature   *)
(* in each draw gives up to the sixth power of the step's deviation.       *)
(* A model has no arbitrage: forwards and discounted assets have no drift, *)
(* and in the foreign measure (weighting by the exchange rate) the foreign *)
(* rate and the foreign stock's variance drift as they do at home.         *)
(***************************************************************************)
EXTENDS Dynamics, Conform, FiniteSets

CONSTANT Sets          \* how many parameter sets of each model
VARIABLES m, i
vars == <<m, i>>

Node(k)   == <<"-1.7320508075688772", "0", "1.7320508075688772">>[k]
Weight(k) == <<"0.16666666666666666", "0.6666666666666666", "0.16666666666666666">>[k]
Draw(d, n) == [j \in 1..d |-> Node(((n \div 3^(j - 1)) % 3) + 1)]
Chance(d, n) == FoldLeft(LAMBDA a, j : a (.) Weight(((n \div 3^(j - 1)) % 3) + 1), "1", Upto(d))
Expect(d, f(_)) == RSum([n \in 1..3^d |-> TLCEval(Chance(d, n - 1) (.) f(Draw(d, n - 1)))])

\* Parameter sets, spread by the number of the set
Spread(k, lo, hi) == lo (+) ((hi (-) lo) (.) (((i * 7919 + k * 104729) % 997) (/) 997))
CirP(k) == [k |-> Spread(k, "0.2", 3), th |-> Spread(k + 1, "0.02", "0.2"),
            g |-> Spread(k + 2, "0.05", "0.8"), s0 |-> Spread(k + 3, "0.02", "0.2")]
Rho(k) == Spread(k, "-0.33", "0.33")   \* diagonally dominant
P == CASE m \in {"bm", "gbm"} -> [mu |-> Spread(1, "-0.2", "0.2"), v |-> Spread(2, "0.01", "0.6"), x |-> Spread(3, 1, 2)]
       [] m = "cir" -> CirP(1)
       [] m = "hw" -> [l |-> Spread(1, "-0.1", 1), n |-> Spread(2, "0.001", "0.03"), x |-> "0.02", th |-> <<"0.03", "0.01">>]
       [] m = "sabr" -> [a |-> Spread(1, "0.05", "0.5"), b |-> Spread(2, 0, 1), r |-> Spread(3, "-0.9", "0.9"),
                         n |-> Spread(4, 0, 1), f |-> Spread(5, "0.5", 2)]
       [] m = "td" -> LET k == <<"0", "0.5", "1">> IN
                      [a |-> [k |-> k, v |-> <<Spread(1, "0.05", "0.5"), Spread(6, "0.05", "0.5")>>], b |-> Spread(2, 0, 1),
                       r |-> [k |-> k, v |-> <<Spread(3, "-0.9", "0.9"), Spread(7, "-0.9", "0.9")>>],
                       n |-> [k |-> k, v |-> <<Spread(4, 0, 1), Spread(8, 0, 1)>>], f |-> Spread(5, "0.5", 2)]
       [] OTHER -> [x |-> Spread(1, "0.5", 2), h |-> CirP(2), ld |-> Spread(6, 0, 1), nd |-> Spread(7, "0.001", "0.03"),
                    lf |-> Spread(8, 0, 1), nf |-> Spread(9, "0.001", "0.03"), rd |-> "0.03", rf |-> "0.01",
                    thd |-> "0.04", thf |-> "0.02", c |-> [k \in 1..6 |-> Rho(9 + k)],
                    s |-> Spread(16, 1, 50), w |-> CirP(17), rxs |-> Rho(21), rso |-> Rho(22)]
dt == "0.0005"
T0 == IF m = "td" /\ i % 2 = 0 THEN "0.7" ELSE "0.2"
S0 == StartOf(m, P)
Next1(z) == TLCEval(Moved(m, P, T0, dt, S0, z))
D == Draws(m)
Mean(f(_)) == Expect(D, LAMBDA z : f(Next1(z)))
Close(a, b) == RClose(a, b, "1e-9", "1e-12")
Grows(a, x, rate) == Close(a, x (.) RExp(rate (.) dt))
Home(c, x) == x (+) ((c.k (.) (c.th (-) x)) (.) dt)

Lawful ==
  CASE m = "bm" -> Close(Mean(LAMBDA s : s[1]), S0[1] (+) (P.mu (.) dt))
    [] m = "gbm" -> Grows(Mean(LAMBDA s : s[1]), S0[1], P.mu)
    [] m = "cir" -> /\ Close(Mean(LAMBDA s : s[1]), Home(P, S0[1]))
                    /\ Close(Mean(LAMBDA s : Sq(s[1] (-) Home(P, S0[1]))), Sq(P.g) (.) (S0[1] (.) dt))
    [] m = "hw" -> Close(Mean(LAMBDA s : s[1]), S0[1] (+) ((P.l (.) (LineAt(P.th, T0) (-) S0[1])) (.) dt))
    [] m = "sabr" -> /\ Close(Mean(LAMBDA s : s[1]), S0[1])
                     /\ Close(Mean(LAMBDA s : s[2]), S0[2])
                     \* forward and vol move together as rho says
                     /\ Close(Mean(LAMBDA s : (s[1] (-) S0[1]) (.) RLn(s[2] (/) S0[2])),
                              (P.r (.) (P.n (.) P.a)) (.) (RPow(P.f, P.b) (.) dt))
    [] m = "td" -> /\ Close(Mean(LAMBDA s : s[1]), S0[1])
                   /\ Close(Mean(LAMBDA s : s[2]), S0[2])
    [] m = "hhw-own" ->
         /\ Grows(Mean(LAMBDA s : s[1]), S0[1], P.rd (-) P.rf)
         /\ Close(Mean(LAMBDA s : s[2]), Home(P.h, P.h.s0))
         /\ Close(Mean(LAMBDA s : s[3]), P.rd (+) ((P.ld (.) (P.thd (-) P.rd)) (.) dt))
         /\ Close(Mean(LAMBDA s : s[1] (.) s[4]) (/) Mean(LAMBDA s : s[1]),
                  P.rf (+) ((P.lf (.) (P.thf (-) P.rf)) (.) dt))
         /\ \A a \in 1..4 : \A b \in (a + 1)..4 :
              LET lg(s, k) == IF k = 1 THEN RLn(s[1]) ELSE s[k]
                  ma == Mean(LAMBDA s : lg(s, a)) mb == Mean(LAMBDA s : lg(s, b))
                  size(k) == CASE k = 1 -> RSqrt(P.h.s0) [] k = 2 -> P.h.g (.) RSqrt(P.h.s0)
                               [] k = 3 -> P.nd [] k = 4 -> P.nf
              IN RClose(Mean(LAMBDA s : (lg(s, a) (-) ma) (.) (lg(s, b) (-) mb)),
                        (HhwMatrix(P.c)[a][b] (.) dt) (.) (size(a) (.) size(b)), "1e-8", "1e-13")
    [] m = "stock" ->
         /\ Grows(Mean(LAMBDA s : s[1]), S0[1], P.rd (-) P.rf)
         /\ Grows(Mean(LAMBDA s : s[1] (.) s[5]), S0[1] (.) S0[5], P.rd)
         /\ Close(Mean(LAMBDA s : s[1] (.) s[6]) (/) Mean(LAMBDA s : s[1]), Home(P.w, P.w.s0))
NoArbitrage == Lawful

Init == m \in {"bm", "gbm", "cir", "hw", "sabr", "td", "hhw-own", "stock"} /\ i = 1
Next == i < Sets /\ i' = i + 1 /\ m' = m
Spec == Init /\ [][Next]_vars
=============================================================================
