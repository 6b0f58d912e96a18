-------------------------------- MODULE Fmm ---------------------------------
(***************************************************************************)
(* The generalised forward market model: term rates that are forward       *)
(* looking until their period starts and fix gradually inside it.          *)
(*   p = [T: the tenor's dates T_0..T_M, R: rates today, s: vols,          *)
(*        c: correlations, b: displacements or <<>>, sch: vol schedule]    *)
(*   state of one currency = [R: rates, Y: their integrated variances,     *)
(*        RS, YS: both as the rate's own period started, x: the noise      *)
(*        of the current period so far]                                    *)
(* and a path also has its time t.  Without arbitrage every bond grows in  *)
(* expectation as the bank account does, and that account grows without    *)
(* noise of first order: FmmLaws checks it.                                *)
(***************************************************************************)
EXTENDS Matrix, TLC

LOCAL Sq(x) == x (.) x
LOCAL Least(S, or) == IF S = {} THEN or ELSE CHOOSE a \in S : \A b \in S : a <= b

M(p) == Len(p.R)
At(p, j) == p.T[j + 1]
Tau(p, j) == At(p, j) (-) At(p, j - 1)
\* The rate that fixes at t, M + 1 once none does
Eta(p, t) == Least({j \in 1..M(p) : RLe(t, At(p, j))}, M(p) + 1)
\* How much of rate j is still to fix
Gamma(p, j, t) ==
  IF RLe(t, At(p, j - 1)) THEN "1.0" ELSE IF RLe(At(p, j), t) THEN "0.0"
  ELSE (At(p, j) (-) t) (/) Tau(p, j)
Fixed(p, j, s, t) == Gamma(p, j, s) (-) Gamma(p, j, t)

TenorAccepts(T, R) ==
  /\ Len(T) >= 2 /\ Len(T) = Len(R) + 1
  /\ RLe(0, T[1])
  /\ \A i \in 2..Len(T) : RLt(T[i - 1], T[i])
\* Correlations: square, unit diagonal, symmetric, within [-1, 1]
SoundCorr(c, n) ==
  /\ Len(c) = n
  /\ \A i \in 1..Len(c) : Len(c[i]) = n
  /\ \A i, j \in 1..n :
       /\ RLt(RAbs(c[i][j] (-) c[j][i]), "1e-12")
       /\ RLe(RAbs(c[i][j]), "1.000000000001")
       /\ i = j => RLt(RAbs(c[i][i] (-) 1), "1e-12")
SoundVols(s, n) == Len(s) = n /\ \A i \in 1..Len(s) : RFinite(s[i]) /\ RLe(0, s[i])
FmmAccepts(p) == SoundVols(p.s, M(p)) /\ SoundCorr(p.c, M(p))
BetasAccept(b, n) == Len(b) = n /\ \A i \in 1..Len(b) : RLe(0, b[i]) /\ RLe(b[i], 1)
\* One list of (from, vol) for each rate
ScheduleAccepts(q, n) ==
  /\ Len(q) = n
  /\ \A j \in 1..Len(q) : Len(q[j]) >= 1 /\ \A i \in 2..Len(q[j]) : RLt(q[j][i - 1][1], q[j][i][1])

-------------------------------------------------------------- \* volatility
Sigma(p, j, t) ==
  CASE p.sch.k = "none" -> p.s[j]
    [] p.sch.k = "steps" ->
         LET q == p.sch.q[j]
             begun == {i \in 1..Len(q) : RLe(q[i][1], t)}
         IN IF begun = {} THEN q[1][2] ELSE q[CHOOSE i \in begun : \A h \in begun : h <= i][2]
    [] p.sch.k = "short-rate" ->
         \* as a mean-reverting short rate of that vol would move it
         LET a == p.sch.a lo == At(p, j - 1) hi == At(p, j) IN
         IF RLe(hi, t) THEN "0.0"
         ELSE IF RLt(RAbs(a), "1e-12") THEN p.sch.v (.) (hi (-) lo)
         ELSE p.sch.v (.) ((RExp(RNeg(a) (.) (lo (-) t)) (-) RExp(RNeg(a) (.) (hi (-) t))) (/) a)
Level(p, j, r) ==
  IF p.b = <<>> THEN "1.0" ELSE (p.b[j] (.) r) (+) ((1 (-) p.b[j]) (.) p.R[j])
Adapted(p, j, t, r) == Sigma(p, j, t) (.) Level(p, j, r)

--------------------------------------------------------------- \* one step
Nought(n) == [i \in 1..n |-> "0.0"]
SideStart(p) ==
  [R |-> p.R, Y |-> Nought(M(p)), RS |-> [i \in 1..M(p) |-> IF i = 1 THEN p.R[1] ELSE "0.0"],
   YS |-> Nought(M(p)), x |-> "0.0"]

\* vol(j, r): how rate j moves at level r; dw: its driver's increments
SideStep(p, vol(_, _), s, t, dt, dw) ==
  LET m == M(p)
      e == Eta(p, t)
      tm == t (+) ("0.5" (.) dt)
      v == TLCEval([i \in 1..m |-> vol(i, s.R[i])])
      live == TLCEval([i \in 1..m |-> v[i] (.) Gamma(p, i, tm)])
      w == TLCEval([i \in 1..m |-> IF i < e THEN "0.0"
              ELSE (live[i] (.) Tau(p, i)) (/) (1 (+) (Tau(p, i) (.) s.R[i]))])
      R2 == TLCEval([j \in 1..m |->
              IF j < e THEN s.R[j]
              ELSE s.R[j] (+) (live[j] (.) ((RSum([i \in 1..j |-> p.c[i][j] (.) w[i]]) (.) dt) (+) dw[j]))])
      Y2 == TLCEval([j \in 1..m |->
              IF RLe(At(p, j), t) THEN s.Y[j]
              ELSE s.Y[j] (+) (Sq(v[j] (/) (s.R[j] (+) (1 (/) Tau(p, j)))) (.) RMin(At(p, j) (-) t, dt))])
      x2 == IF e <= m /\ RLe(At(p, e - 1), t) /\ RLt(t, At(p, e))
            THEN s.x (+) ((((Y2[e] (-) s.YS[e]) (/) Tau(p, e)) (.) dt)
                          (+) ((v[e] (/) (s.R[e] (+) (1 (/) Tau(p, e)))) (.) dw[e]))
            ELSE s.x
      t2 == t (+) dt
      \* the periods that have started since
      new == {k \in 2..m : e < k /\ k <= Eta(p, t2)}
               \cup (IF RLt(t, At(p, 0)) /\ RLe(At(p, 0), t2) THEN {1} ELSE {})
  IN [R |-> R2, Y |-> Y2,
      RS |-> [k \in 1..m |-> IF k \in new THEN R2[k] ELSE s.RS[k]],
      YS |-> [k \in 1..m |-> IF k \in new THEN Y2[k] ELSE s.YS[k]],
      x |-> IF new = {} THEN TLCEval(x2) ELSE "0.0"]

\* The single-currency path
FmmStart(p) == [t |-> "0.0"] @@ SideStart(p)
FmmMove(p, s, dt, z) ==
  LET tm == s.t (+) ("0.5" (.) dt)
      dw == TLCEval([i \in 1..M(p) |-> RSqrt(dt) (.) Correlate(Cholesky(p.c), z)[i]])
  IN [t |-> TLCEval(s.t (+) dt)] @@ SideStep(p, LAMBDA j, r : Adapted(p, j, tm, r), s, s.t, dt, dw)

-------------------------------------------------------------------- \* bonds
(* Discount factors as of t, from those of today, d(T), and the path.      *)
LOCAL Fwd(d(_), s, t) == d(t) (/) d(s)
LOCAL Tiny == "1e-15"

\* From the start of period k to T inside it, seen from before it
BackStub(p, s, k, T, dT, dk) ==
  IF ~(k \in 1..M(p)) THEN "panic"
  ELSE IF \/ RLt(At(p, k - 1) (+) Tiny, s.t)
          \/ RLe(T, At(p, k - 1) (-) Tiny) \/ RLt(At(p, k) (+) Tiny, T) THEN "panic"
  ELSE LET g == Fixed(p, k, At(p, k - 1), T) IN
       dT (.) (RPow((1 (+) (Tau(p, k) (.) s.R[k])) (.) dk, RNeg(g))
               (.) RExp("0.5" (.) (g (.) (Fixed(p, k, T, At(p, k)) (.) s.Y[k]))))

\* To T in the current period
FrontStub(p, s, T, dT, dk) ==
  LET k == Eta(p, s.t) IN
  IF k > M(p) THEN "panic"
  ELSE IF RLe(s.t, At(p, k - 1) (-) Tiny) \/ RLe(T, s.t (-) Tiny) \/ RLt(At(p, k) (+) Tiny, T) THEN "panic"
  ELSE LET lo == At(p, k - 1)
           hi == At(p, k)
           g == Fixed(p, k, s.t, T)
           since == (Fixed(p, k, T, hi) (.) Fixed(p, k, lo, T)) (-) (Fixed(p, k, s.t, hi) (.) Fixed(p, k, lo, s.t))
       IN dT (.) (RPow((1 (+) (Tau(p, k) (.) s.RS[k])) (.) dk, RNeg(g))
                  (.) RExp((("0.5" (.) (s.YS[k] (.) since)) (-) (g (.) s.x))
                           (-) ("0.5" (.) (Sq(g) (.) (s.Y[k] (-) s.YS[k])))))

\* ... within the period k of t, whether or not it has begun
LOCAL Within(p, s, k, T, d(_)) ==
  LET lo == At(p, k - 1) dk == Fwd(d, lo, At(p, k)) IN
  IF RLe(s.t, lo (+) Tiny) THEN BackStub(p, s, k, T, Fwd(d, lo, T), dk)
  ELSE FrontStub(p, s, T, Fwd(d, s.t, T), dk)

Bond(p, s, T, d(_)) ==
  IF RLt(T, s.t (-) Tiny) THEN "panic"
  ELSE IF RLt(RAbs(T (-) s.t), Tiny) THEN "1.0"
  ELSE LET k == Eta(p, s.t) n == Eta(p, T) IN
       IF n > M(p) THEN "panic"
       ELSE IF k = n THEN Within(p, s, k, T, d)
       ELSE (Within(p, s, k, At(p, k), d)
              (.) FoldLeft(LAMBDA a, j : IF j > k /\ j < n THEN a (/) (1 (+) (Tau(p, j) (.) s.R[j])) ELSE a,
                           "1.0", Upto(M(p))))
             (.) BackStub(p, s, n, T, Fwd(d, At(p, n - 1), T), Fwd(d, At(p, n - 1), At(p, n)))

\* One unit rolled over at the fixings
Bank(p, s, d(_)) ==
  LET k == Eta(p, s.t)
      upto == IF k > M(p) THEN M(p) ELSE k
      rolled == FoldLeft(LAMBDA a, j : a (.) (1 (+) (Tau(p, j) (.) s.R[j])), "1.0", Upto(upto))
  IN IF k > M(p) THEN rolled ELSE rolled (.) Bond(p, s, At(p, k), d)

------------------------------------------------- \* with an exchange rate
(* p = [x: the rate today, h: its Heston variance, d, f: a side of each    *)
(* currency as above, c: [xs, xd, xf, sd, sf, df] correlations]; the       *)
(* state is [x, v, t, d, f].  In the home measure the foreign drivers      *)
(* drift against the exchange rate.  Short rates are read off the rates    *)
(* now fixing.                                                             *)
Joint(p) ==
  LET m == M(p.d)
      of(a, b) ==   \* a < b
        CASE a = 1 /\ b = 2 -> p.c.xs
          [] a = 1 /\ b > 2 -> IF b <= m + 2 THEN p.c.xd[b - 2] ELSE p.c.xf[b - 2 - m]
          [] a = 2 -> IF b <= m + 2 THEN p.c.sd[b - 2] ELSE p.c.sf[b - 2 - m]
          [] a > 2 /\ b <= m + 2 -> p.d.c[a - 2][b - 2]
          [] a > m + 2 -> p.f.c[a - 2 - m][b - 2 - m]
          [] OTHER -> p.c.df[a - 2][b - 2 - m]
  IN [a \in 1..(2 + 2 * m) |-> [b \in 1..(2 + 2 * m) |->
       IF a = b THEN "1.0" ELSE IF a < b THEN of(a, b) ELSE of(b, a)]]

FxFmmStart(p) == [x |-> p.x, v |-> p.h.s0, t |-> "0.0", d |-> SideStart(p.d), f |-> SideStart(p.f)]
FxFmmMove(p, L, s, dt, z) ==
  LET m == M(p.d)
      dw == TLCEval([i \in 1..(2 + 2 * m) |-> RSqrt(dt) (.) Correlate(L, z)[i]])
      v == RMax(0, s.v)
      e == Eta(p.d, s.t)
      k == IF e > m THEN m ELSE e
      dwd == [j \in 1..m |-> dw[2 + j]]
      dwf == [j \in 1..m |-> dw[2 + m + j] (-) ((p.c.xf[j] (.) RSqrt(v)) (.) dt)]
  IN [x |-> TLCEval(s.x (.) RExp((((s.d.R[k] (-) s.f.R[k]) (-) ("0.5" (.) v)) (.) dt) (+) (RSqrt(v) (.) dw[1]))),
      v |-> TLCEval(RMax(0, (v (+) ((p.h.k (.) (p.h.th (-) v)) (.) dt)) (+) ((p.h.g (.) RSqrt(v)) (.) dw[2]))),
      t |-> TLCEval(s.t (+) dt),
      d |-> SideStep(p.d, LAMBDA j, r : p.d.s[j] (.) RSqrt(p.d.v0), s.d, s.t, dt, dwd),
      f |-> SideStep(p.f, LAMBDA j, r : p.f.s[j] (.) RSqrt(p.f.v0), s.f, s.t, dt, dwf)]
=============================================================================
