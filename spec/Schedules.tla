----------------------------- MODULE Schedules ------------------------------
(***************************************************************************)
(* Parameters that are constant between times 0 = t0 < t1 < ... < tn, and  *)
(* the constant parameters equivalent to them (van der Stoep, Grzelak and  *)
(* Oosterlee 2015, section 4).  A schedule is [k, v]: the knots, and the   *)
(* value on each (k[i], k[i+1]].                                           *)
(***************************************************************************)
EXTENDS RealMath

ScheduleValid(s) ==
  /\ Len(s.k) >= 2 /\ Len(s.v) + 1 = Len(s.k)
  /\ RLt(RAbs(s.k[1]), "1e-15")
  /\ \A i \in 2..Len(s.k) : RLt(s.k[i - 1], s.k[i])

ScheduleAt(s, t) ==
  IF ~RLe(0, t) \/ ~RLe(t, s.k[Len(s.k)] (+) "1e-15") THEN "panic"
  ELSE LET i == CHOOSE i \in 1..Len(s.v) :
                  /\ RLe(t, s.k[i + 1] (+) "1e-15") \/ i = Len(s.v)
                  /\ \A j \in 1..(i - 1) : ~RLe(t, s.k[j + 1] (+) "1e-15")
       IN s.v[i]

\* (e^(c d) - 1)/c, and d at c = 0: the integral of e^(c t) over 0..d
Grow(c, d) == IF REq(c (.) d, 0) THEN d ELSE RExpm1(c (.) d) (/) c

(* Segments up to an expiry that is a knot.  G is the integral of gamma^2  *)
(* before each segment.                                                    *)
Whole(s, T) == {i \in 1..Len(s.v) : RLe(s.k[i + 1], T (+) "1e-12")}
OnKnot(s, T) == \E i \in 1..Len(s.k) : RLt(RAbs(s.k[i] (-) T), "1e-12")
Aligned(g, w, T) == g.k = w.k /\ OnKnot(g, T)
Sq(x) == x (.) x
Len_(s, i) == s.k[i + 1] (-) s.k[i]
GammaSum(g, i) == RSum([j \in 1..(i - 1) |-> Sq(g.v[j]) (.) Len_(g, j)])
N(s, T) == LET w == Whole(s, T) IN IF w = {} THEN 0 ELSE CHOOSE n \in w : \A m \in w : m <= n

\* I = integral of w^2 e^G
LOCAL EyeOf(g, w, n, c) ==      \* with c times the exponents
  RSum([i \in 1..n |-> (Sq(w.v[i]) (.) RExp(c (.) GammaSum(g, i)))
                         (.) Grow(c (.) Sq(g.v[i]), Len_(g, i))])
Eye(g, w, T) == EyeOf(g, w, N(g, T), 1)

(* The integral over t of w(t)^2 e^G(t) times that over s < t of           *)
(* w(s)^2 e^(5G(s)): with s in an earlier segment the two factors part;    *)
(* within a segment it is the integral of e^(a t)(e^(5 a t) - 1)/(5a).     *)
LOCAL Within(a, d) ==
  LET x == a (.) d IN
  IF RLt(RAbs(x), "0.001")
  THEN (d (.) d) (.) RSum(<<"0.5", (7 (.) x) (/) 6, (43 (.) (x (.) x)) (/) 24,
                            (259 (.) ((x (.) x) (.) x)) (/) 120,
                            (311 (.) ((x (.) x) (.) (x (.) x))) (/) 144 >>)
  ELSE (Grow(6 (.) a, d) (-) Grow(a, d)) (/) (5 (.) a)
SecondMoment(g, w, T) ==
  RSum([i \in 1..N(g, T) |->
          LET a == Sq(g.v[i])
              G == GammaSum(g, i) IN
          ((Sq(w.v[i]) (.) RExp(G)) (.) Grow(a, Len_(g, i))) (.) EyeOf(g, w, i - 1, 5)
            (+) ((Sq(Sq(w.v[i])) (.) RExp(6 (.) G)) (.) Within(a, Len_(g, i)))])

(* The same for constant gamma with gamma^2 = q and an equal I             *)
ConstantMoment(q, T, I) ==
  LET x == q (.) T
      inner == IF RLt(x, "0.001")      \* divided by x^2
               THEN RSum(<<"2.5", (35 (.) x) (/) 6, (215 (.) (x (.) x)) (/) 24,
                           (1295 (.) ((x (.) x) (.) x)) (/) 120,
                           (1555 (.) ((x (.) x) (.) (x (.) x))) (/) 144>>)
               ELSE ((RExpm1(6 (.) x) (/) 6) (-) RExpm1(x)) (/) (x (.) x)
      y == Grow(x, 1)                  \* (e^x - 1)/x
  IN ((I (.) I) (.) inner) (/) (5 (.) (y (.) y))

(* A vol of vol is equivalent when the moments agree, or zero when no      *)
(* constant one makes so small a moment.                                   *)
IsEffectiveGamma(g, w, T, got) ==
  LET want == SecondMoment(g, w, T)
      i == Eye(g, w, T) IN
  IF REq(got, 0) THEN RLe(want, ("0.5" (.) (i (.) i)) (.) "1.00000000003")
  ELSE RLt(0, got) /\ RClose(ConstantMoment(got (.) got, T, i), want, "2e-11", 0)

(* The volatility of equal first moment, and the correlation of equal skew *)
EffectiveOmega(g, w, T, gt) ==
  RSqrt(Eye(g, w, T) (/) (T (.) Grow(Sq(gt) (.) T, 1)))
EffectiveRho(g, w, r, T, gt, wt) ==
  IF RLt(RAbs(gt), "1e-15") THEN "0.0"
  ELSE (wt (/) (gt (.) T))
         (.) RSum([i \in 1..N(g, T) |-> ((r.v[i] (.) g.v[i]) (/) w.v[i]) (.) Len_(g, i)])
=============================================================================
