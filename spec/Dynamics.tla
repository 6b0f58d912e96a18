------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* How each simulated model moves: the next state after dt from state s,   *)
(* given independent normal draws z, by the Euler scheme the model         *)
(* documents (log-Euler where the process is a positive exponential, full  *)
(* truncation where a variance may fall below zero, absorption at a zero   *)
(* forward for SABR).  A state is a sequence of reals.  t is the middle    *)
(* of the step.  A model that refuses the step gives <<"panic">>.          *)
(***************************************************************************)
EXTENDS Schedules, Dupire, TLC

LOCAL Pos(x) == RMax(0, x)

Bm(p, dt, x, z) == x (+) (p.mu (.) dt) (+) (p.v (.) (RSqrt(dt) (.) z))
Gbm(p, dt, x, z) ==
  x (.) RExp(((p.mu (-) ("0.5" (.) Sq(p.v))) (.) dt) (+) (p.v (.) (RSqrt(dt) (.) z)))

\* A square-root process with an extra drift, given its own increment
Root(c, v, extra, dt, dw) ==
  Pos(Pos(v) (+) (((c.k (.) (c.th (-) Pos(v))) (+) extra) (.) dt) (+) (c.g (.) (RSqrt(Pos(v)) (.) dw)))
\* A mean-reverting rate
Rate(l, n, theta, x, extra, dt, dw) ==
  x (+) (((l (.) (theta (-) x)) (+) extra) (.) dt) (+) (n (.) dw)
\* A log-Euler asset with variance v
Asset(x, v, drift, dt, dw) ==
  x (.) RExp(((drift (-) ("0.5" (.) Pos(v))) (.) dt) (+) (RSqrt(Pos(v)) (.) dw))

\* A line in time, for the rates' targets
LineAt(c, t) == c[1] (+) (c[2] (.) t)

------------------------------------------------------------------- \* SABR
Cev(f, sigma, beta, dw) == Pos(Pos(f) (+) (sigma (.) (RPow(Pos(f), beta) (.) dw)))
LogVol(a, nu, dt, dw) == a (.) RExp((nu (.) dw) (-) ("0.5" (.) (Sq(nu) (.) dt)))
SabrStep(p, dt, s, z) ==
  LET dwf == RSqrt(dt) (.) z[1]
      dwa == RSqrt(dt) (.) Beside(p.r, z[1], z[2])
  IN <<Cev(s[1], Pos(s[2]), p.b, dwf), LogVol(Pos(s[2]), p.n, dt, dwa)>>

\* The level of alpha that holds up to t
AlphaUntil(p, t) ==
  ScheduleAt(p.a, RMax(0, RMin(t (-) "1e-9", p.a.k[Len(p.a.k)])))
TdAccepts(p) ==
  /\ p.a.k = p.r.k /\ p.a.k = p.n.k
  /\ RLe(0, p.b) /\ RLe(p.b, 1) /\ RLt(0, p.f)
  /\ \A i \in 1..Len(p.a.v) : RLt(0, p.a.v[i]) /\ RLe(0, p.n.v[i]) /\ RLt(RAbs(p.r.v[i]), 1)
\* vol is alpha(t) xi(t): its alpha moves with the schedule
TdStep(p, t, dt, s, z) ==
  IF ScheduleAt(p.a, t) = "panic" THEN <<"panic">>
  ELSE LET now == ScheduleAt(p.a, t)
           half == "0.5" (.) dt
           sigma == (Pos(s[2]) (.) now) (/) AlphaUntil(p, t (-) half)
           dwf == RSqrt(dt) (.) z[1]
           dwa == RSqrt(dt) (.) Beside(ScheduleAt(p.r, t), z[1], z[2])
       IN <<Cev(s[1], sigma, p.b, dwf),
            (LogVol(sigma, ScheduleAt(p.n, t), dt, dwa) (.) AlphaUntil(p, t (+) half)) (/) now>>
Flat(v) == \A i \in 2..Len(v) : RLt(RAbs(v[i] (-) v[i - 1]), "1e-12")

---------------------------------------------------------------- \* FX-HHW
\* xi, sigma, rd, rf, in the paper's order of correlations
HhwMatrix(c) == << <<"1", c[1], c[2], c[3]>>, <<c[1], "1", c[4], c[5]>>,
                   <<c[2], c[4], "1", c[6]>>, <<c[3], c[5], c[6], "1">> >>
HhwStep(p, thd, thf, dt, s, z) ==
  LET dw == [i \in 1..4 |-> RSqrt(dt) (.) Correlate(Cholesky(HhwMatrix(p.c)), z)[i]]
      quanto == RNeg((p.nf (.) p.c[3]) (.) RSqrt(Pos(s[2])))
  IN <<Asset(s[1], s[2], s[3] (-) s[4], dt, dw[1]),
       Root(p.h, s[2], "0", dt, dw[2]),
       Rate(p.ld, p.nd, thd, s[3], "0", dt, dw[3]),
       Rate(p.lf, p.nf, thf, s[4], quanto, dt, dw[4])>>

\* ... with a foreign stock of variance omega: states 5 and 6
StockStep(p, dt, s, z) ==
  LET root == RSqrt(dt)
      zs == Beside(p.rxs, z[1], z[5])
      zo == Beside(p.rso, zs, z[6])
      both == RSqrt(Pos(s[2])) (.) RSqrt(Pos(s[6]))
  IN HhwStep(p, p.thd, p.thf, dt, SubSeq(s, 1, 4), SubSeq(z, 1, 4)) \o
     <<Asset(s[5], s[6], s[4] (-) (p.rxs (.) both), dt, root (.) zs),
       Root(p.w, s[6], RNeg((p.rso (.) p.rxs) (.) (p.w.g (.) both)), dt, root (.) zo)>>

------------------------------------------------------------- \* all models
Draws(m) == CASE m \in {"bm", "gbm", "cir", "hw"} -> 1
              [] m \in {"sabr", "td", "slv"} -> 2
              [] m \in {"hhw", "hhw-own"} -> 4
              [] m = "stock" -> 6

StartOf(m, p) ==
  CASE m \in {"bm", "gbm", "hw"} -> <<p.x>>
    [] m = "cir" -> <<p.s0>>
    [] m = "sabr" -> IF RLt(0, p.f) THEN <<p.f, p.a>> ELSE <<"panic">>
    [] m = "td" -> IF TdAccepts(p) THEN <<p.f, p.a.v[1]>> ELSE <<"panic">>
    [] m \in {"hhw", "hhw-own"} ->
         IF PosDef(Cholesky(HhwMatrix(p.c))) THEN <<p.x, p.h.s0, p.rd, p.rf>> ELSE <<"error">>
    [] m = "stock" ->
         IF PosDef(Cholesky(HhwMatrix(p.c))) /\ RLe(RAbs(p.rxs), 1) /\ RLe(RAbs(p.rso), 1)
         THEN <<p.x, p.h.s0, p.rd, p.rf, p.s, p.w.s0>> ELSE <<"error">>

Moved(m, p, t, dt, s, z) ==
  CASE m = "bm" -> <<Bm(p, dt, s[1], z[1])>>
    [] m = "gbm" -> <<Gbm(p, dt, s[1], z[1])>>
    [] m = "cir" -> <<Root(p, s[1], "0", dt, RSqrt(dt) (.) z[1])>>
    [] m = "hw" -> <<Rate(p.l, p.n, LineAt(p.th, t), s[1], "0", dt, RSqrt(dt) (.) z[1])>>
    [] m = "sabr" -> SabrStep(p, dt, s, z)
    [] m = "td" -> TdStep(p, t, dt, s, z)
    [] m = "hhw" -> HhwStep(p, LineAt(p.td, t), LineAt(p.tf, t), dt, s, z)
    [] m = "hhw-own" -> HhwStep(p, p.thd, p.thf, dt, s, z)
    [] m = "stock" -> StockStep(p, dt, s, z)
\* SABR and hybrid models insist on a positive step
Insists(m) == m \notin {"bm", "gbm", "cir", "hw"}

\* One path of n steps: draws taken in order
Walk(m, p, end, n, z) ==
  LET dt == end (/) n
      d == Draws(m)
      go(acc, i) == [t |-> acc.t (+) dt,
                     s |-> IF acc.s = <<"panic">> THEN acc.s
                           ELSE Moved(m, p, acc.t (+) ("0.5" (.) dt), dt, acc.s,
                                      SubSeq(z, (i - 1) * d + 1, i * d))]
  IN FoldLeft(go, [t |-> "0", s |-> StartOf(m, p)], Upto(n)).s

-------------------------------------------------------------------- \* SLV
(* Stochastic local volatility moves its paths together: the forward's    *)
(* volatility is scaled by the local variance over the mean squared vol of *)
(* the paths with a like forward, which the ranked paths' bins of equal    *)
(* size estimate.                                                          *)
LOCAL CeilDiv(a, b) == (a + b - 1) \div b
Ranked(pop) == SortSeq([i \in 1..Len(pop) |-> <<pop[i], i>>],
                       LAMBDA a, b : RLt(a[1][1], b[1][1]) \/ (REq(a[1][1], b[1][1]) /\ a[2] < b[2]))
Bins(pop, bins) ==
  LET n == Len(pop)
      size == CeilDiv(n, bins)
      q == Ranked(pop)
      one(b) == LET lo == (b - 1) * size + 1
                    hi == IF b * size < n THEN b * size ELSE n
                IN <<q[hi][1][1], RSum([i \in 1..(hi - lo + 1) |-> Sq(q[lo + i - 1][1][2])]) (/) (hi - lo + 1)>>
  IN [b \in 1..CeilDiv(n, size) |-> TLCEval(one(b))]
MeanSquare(bins, f) ==
  LET in == {b \in 1..Len(bins) : RLe(f, bins[b][1])}
  IN IF in = {} THEN bins[Len(bins)][2]
     ELSE bins[CHOOSE b \in in : \A c \in in : b <= c][2]
SlvMove(p, bins, t, dt, s, z) ==
  LET f == RMax("1e-12", s[1])
      vol == Pos(s[2])
      scale == LocalVariance(p.T, p.K, p.v, t, f)
                 (/) RMax("1e-12", MeanSquare(bins, f) (.) RPow(f, (2 (.) p.b) (-) 2))
      dwf == RSqrt(dt) (.) z[1]
      dwa == RSqrt(dt) (.) Beside(ScheduleAt(p.r, t), z[1], z[2])
  IN <<Cev(f, RSqrt(Pos(scale)) (.) vol, p.b, dwf), LogVol(vol, ScheduleAt(p.n, t), dt, dwa)>>
SlvWalk(p, end, n, paths, nbins, z) ==
  LET dt == end (/) n
      go(acc, i) ==
        LET t == acc.t (+) ("0.5" (.) dt)
            bins == TLCEval(Bins(acc.s, nbins))
            at == (i - 1) * paths
        IN [t |-> acc.t (+) dt,
            s |-> TLCEval([k \in 1..paths |->
                    TLCEval(SlvMove(p, bins, t, dt, acc.s[k], <<z[2 * (at + k) - 1], z[2 * (at + k)]>>))])]
  IN FoldLeft(go, [t |-> "0", s |-> [k \in 1..paths |-> <<p.f, p.a.v[1]>>]], Upto(n)).s
=============================================================================
