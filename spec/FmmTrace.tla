------------------------------ MODULE FmmTrace ------------------------------
(* Recorded tenors, vols, bonds and paths of the forward market models.    *)
EXTENDS Judging, Hybrid, TraceCore

Key(r, what) == what \o " " \o ToString(r.in)
Ok(b) == IF b THEN "ok" ELSE "panic"
\* today's discount factors of the recorded curves
Disc(c, T) == RExp(RNeg((c[1] (.) T) (+) (c[2] (.) (T (.) T))))
List(key, got, want, rel, abs) ==
  /\ Same(key \o " length", Len(got), Len(want))
  /\ \A i \in 1..(IF Len(got) < Len(want) THEN Len(got) ELSE Len(want)) :
       Near(key \o " [" \o ToString(i) \o "]", got[i], want[i], rel, abs)

------------------------------------------------------------------- \* P32
JudgeForm(r) ==
  LET q == r.in IN
  CASE r.kind = "tenor" -> Same(Key(r, "tenor"), r.out, Ok(TenorAccepts(q.T, q.R)))
    [] r.kind = "model" -> Same(Key(r, "model"), r.out, Ok(FmmAccepts(q)))
    [] r.kind = "betas" -> Same(Key(r, "betas"), r.out, Ok(BetasAccept(q.b, q.n)))
    [] r.kind = "schedule" -> Same(Key(r, "schedule"), r.out, Ok(ScheduleAccepts(q.q, q.n)))
    [] r.kind = "grid" ->
         /\ List(Key(r, "tau"), r.out.tau, [j \in 1..M(q) |-> Tau(q, j)], "1e-13", "1e-15")
         /\ \A i \in 1..Len(q.ts) :
              /\ Same(Key(r, "rate fixing at " \o q.ts[i]), r.out.eta[i], Eta(q, q.ts[i]))
              /\ List(Key(r, "decay at " \o q.ts[i]), r.out.gamma[i], [j \in 1..M(q) |-> Gamma(q, j, q.ts[i])], "1e-12", "1e-13")
              /\ List(Key(r, "fixed from " \o q.ts[i]), r.out.fixed[i],
                      [j \in 1..M(q) |-> Fixed(q, j, q.ts[i], q.ts[1])], "1e-12", "1e-13")
    [] r.kind = "vol" ->
         LET p == q.p IN
         \A i \in 1..Len(q.at) :
           LET j == q.at[i][1] t == q.at[i][2] x == q.at[i][3] IN
           /\ Near(Key(r, "vol"), r.out[i][1], Sigma(p, j, t), "1e-9", "1e-13")
           /\ Near(Key(r, "level"), r.out[i][2], Level(p, j, x), "1e-12", "1e-14")
           /\ Near(Key(r, "adapted vol"), r.out[i][3], Adapted(p, j, t, x), "1e-9", "1e-14")
    [] r.kind = "bond" ->
         LET d(T) == Disc(q.d, T) IN
         /\ \A i \in 1..Len(q.ends) :
              Near(Key(r, "bond to " \o q.ends[i]), r.out.bonds[i], Bond(q.p, q.s, q.ends[i], d), "1e-10", "0")
         /\ Near(Key(r, "account"), r.out.bank, Bank(q.p, q.s, d), "1e-10", "0")
    [] r.kind = "back" -> Near(Key(r, "back stub"), r.out, BackStub(q.p, q.s, q.k, q.T, q.dT, q.dk), "1e-10", "0")
    [] r.kind = "front" -> Near(Key(r, "front stub"), r.out, FrontStub(q.p, q.s, q.T, q.dT, q.dk), "1e-10", "0")
    [] r.kind = "curve" -> Near(Key(r, "flat curve"), r.out, RExp(RNeg(q.r) (.) q.T), "1e-12", "0")
    [] OTHER -> TRUE
SpecForm == TraceInit /\ [][TraceStep(JudgeForm)]_vars

------------------------------------------------------------------- \* P34
AlikeSide(key, got, want, tol) ==
  /\ List(key \o " rates", got.R, want.R, tol, tol)
  /\ List(key \o " variances", got.Y, want.Y, tol, tol (.) "0.001")
  /\ List(key \o " rates at their starts", got.RS, want.RS, tol, tol)
  /\ List(key \o " variances at their starts", got.YS, want.YS, tol, tol (.) "0.001")
  /\ Near(key \o " noise of the period", got.x, want.x, tol, tol)
AlikePath(key, got, want, tol) ==
  /\ AlikeSide(key, got, want, tol)
  /\ Near(key \o " time", got.t, want.t, "1e-14", "0")
AlikeFx(key, got, want, tol) ==
  /\ AlikeSide(key \o " domestic", got.d, want.d, tol)
  /\ AlikeSide(key \o " foreign", got.f, want.f, tol)
  /\ Near(key \o " time", got.t, want.t, "1e-14", "0")
  /\ Near(key \o " exchange rate", got.x, want.x, tol, "0")
  /\ Near(key \o " variance", got.v, want.v, tol, tol)

Walk(start, move(_, _, _), end, n, d, z) ==
  LET dt == end (/) n IN
  FoldLeft(LAMBDA s, i : TLCEval(move(s, dt, SubSeq(z, (i - 1) * d + 1, i * d))), start, Upto(n))

JudgeMove(r) ==
  LET q == r.in IN
  CASE r.kind = "fmm-start" ->
         IF r.out.ok = "panic" \/ ~PosDef(Cholesky(q.p.c))
         THEN Same(Key(r, "simulator"), r.out.ok, IF PosDef(Cholesky(q.p.c)) THEN "ok" ELSE "error")
         ELSE Same(Key(r, "simulator"), r.out.ok, "ok") /\ AlikePath(Key(r, "start"), r.out.s, FmmStart(q.p), "1e-14")
    [] r.kind = "fmm-step" ->
         IF r.out.ok = "panic" \/ ~RLt(0, q.dt)
         THEN Same(Key(r, "step"), r.out.ok, Ok(RLt(0, q.dt)))
         ELSE AlikePath(Key(r, "step"), r.out.s, TLCEval(FmmMove(q.p, q.s, q.dt, q.z)), "1e-11")
    [] r.kind = "fmm-paths" ->
         LET d == M(q.p) * q.n IN
         /\ Same(Key(r, "number of paths"), Len(r.out), q.paths)
         /\ \A k \in 1..Len(r.out) :
              AlikePath(Key(r, "path " \o ToString(k)), r.out[k],
                TLCEval(Walk(FmmStart(q.p), LAMBDA s, dt, z : FmmMove(q.p, s, dt, z), q.end, q.n, M(q.p),
                             SubSeq(q.z, (k - 1) * d + 1, k * d))), "1e-9")
    [] r.kind = "fx-start" ->
         LET good == MarketAccepts(q.a) /\ PosDef(Cholesky(Joint(q.p))) IN
         IF r.out.ok # "ok" \/ ~good
         THEN Same(Key(r, "simulator"), r.out.ok, IF good THEN "ok" ELSE "error")
         ELSE AlikeFx(Key(r, "start"), r.out.s, FxFmmStart(q.p), "1e-14")
    [] r.kind = "fx-step" ->
         IF r.out.ok = "panic" \/ ~RLt(0, q.dt)
         THEN Same(Key(r, "step"), r.out.ok, Ok(RLt(0, q.dt)))
         ELSE AlikeFx(Key(r, "step"), r.out.s, TLCEval(FxFmmMove(q.p, TLCEval(Cholesky(Joint(q.p))), q.s, q.dt, q.z)), "1e-11")
    [] r.kind = "fx-paths" ->
         LET w == 2 + 2 * M(q.p.d)
             d == w * q.n
             L == TLCEval(Cholesky(Joint(q.p))) IN
         /\ Same(Key(r, "number of paths"), Len(r.out), q.paths)
         /\ \A k \in 1..Len(r.out) :
              AlikeFx(Key(r, "path " \o ToString(k)), r.out[k],
                TLCEval(Walk(FxFmmStart(q.p), LAMBDA s, dt, z : FxFmmMove(q.p, L, s, dt, z), q.end, q.n, w,
                             SubSeq(q.z, (k - 1) * d + 1, k * d))), "1e-9")
    [] OTHER -> TRUE
SpecMove == TraceInit /\ [][TraceStep(JudgeMove)]_vars

------------------------------------------------------------------- \* P33
JudgeHybrid(r) ==
  LET q == r.in IN
  CASE r.kind = "libor-tenor" -> Same(Key(r, "tenor"), r.out, Ok(LiborTenorAccepts(q.T, q.R)))
    [] r.kind = "libor-grid" ->
         /\ List(Key(r, "tau"), r.out.tau, [j \in 1..M(q) |-> Tau(q, j)], "1e-13", "1e-15")
         /\ \A i \in 1..Len(q.ts) :
              LET m == FirstDate(q, q.ts[i]) IN
              /\ Same(Key(r, "next date at " \o q.ts[i]), r.out.m[i], m)
              /\ Same(Key(r, "rates alive at " \o q.ts[i]), r.out.alive[i], [j \in 1..(M(q) - m) |-> m + j])
    [] r.kind = "accepts" ->
         Same(Key(r, "parameters"), r.out, IF (IF q.libor THEN LiborAccepts(q.p) ELSE MarketAccepts(q.p)) THEN "ok" ELSE "error")
    [] r.kind = "base" ->
         /\ List(Key(r, "psi domestic"), r.out[1], FreshPsi(q.p, q.p.d), "1e-12", "1e-15")
         /\ List(Key(r, "psi foreign"), r.out[2], FreshPsi(q.p, q.p.f), "1e-12", "1e-15")
    [] r.kind = "rates" ->
         LET p == q.p
             psid == TLCEval(IF q.libor THEN LiborPsi(p, p.d) ELSE MarketPsi(p, p.d, q.t))
             psif == TLCEval(IF q.libor THEN LiborPsi(p, p.f) ELSE MarketPsi(p, p.f, q.t)) IN
         /\ List(Key(r, "psi domestic"), r.out.psid, psid, "1e-12", "1e-15")
         /\ List(Key(r, "psi foreign"), r.out.psif, psif, "1e-12", "1e-15")
         /\ Near(Key(r, "A domestic"), r.out.ad, Squared(psid, p.d.c, q.n), "1e-10", "1e-14")
         /\ Near(Key(r, "A foreign"), r.out.af, Squared(psif, p.f.c, q.n), "1e-10", "1e-14")
         \* the mean roots are as exact as P26 has them
         /\ LET x == TLCEval(Crossings(p, psid, psif, q.n, q.t)) IN
            Near(Key(r, "f"), r.out.f, Crossed(x), "0", "1e-5" (.) ((RAbs(x[1]) (+) RAbs(x[2])) (+) RAbs(x[3])))
    [] OTHER -> TRUE
SpecHybrid == TraceInit /\ [][TraceStep(JudgeHybrid)]_vars
=============================================================================
