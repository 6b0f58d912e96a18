---------------------------- MODULE DynamicsTrace ---------------------------
(* Recorded steps, starts and simulations of the Monte Carlo models.       *)
EXTENDS Judging, Dynamics, TraceCore

Key(r) == r.m \o " " \o r.kind \o " " \o ToString(<<r.p, r.in>>)

Alike(r, what, got, want) ==
  IF Len(got) # Len(want) \/ Word(got[1]) \/ Word(want[1])
  THEN Same(Key(r) \o what, got, want)
  ELSE \A i \in 1..Len(got) : Near(Key(r) \o what \o " component " \o ToString(i), got[i], want[i], r.tol, r.tol (.) "0.01")

JudgeDynamics(r) ==
  LET q == r.in IN
  CASE r.kind = "start" -> Alike(r, "", r.out[1], StartOf(r.m, r.p))
    [] r.kind = "matrix" ->
         /\ Same(Key(r) \o " soundness", q.sound, PosDef(Cholesky(HhwMatrix(r.p.c))))
         /\ \A i \in 1..4 : Alike(r, " row " \o ToString(i), r.out[i], HhwMatrix(r.p.c)[i])
    [] r.kind = "root" ->
         \* a lower triangle whose square is the matrix
         IF Word(r.out[1][1]) THEN Report(~PosDef(Cholesky(HhwMatrix(r.p.c))), Key(r), "the code has no root")
         ELSE \A i \in 1..4 :
                Alike(r, " row " \o ToString(i), r.out[i],
                      [j \in 1..4 |-> IF j > i THEN "0" ELSE TLCEval(Cholesky(HhwMatrix(r.p.c)))[i][j]])
    [] r.kind = "step" ->
         Alike(r, "", r.out[1], IF Insists(r.m) /\ ~RLt(0, q.dt) THEN <<"panic">>
                                ELSE TLCEval(Moved(r.m, r.p, q.t, q.dt, q.s, q.z)))
    [] r.kind = "noise" ->
         \* the increments reported next to the step
         LET root == RSqrt(q.dt) IN
         Alike(r, "", r.out[1], TLCEval(
           [i \in 1..Len(r.out[1]) |->
              root (.) (CASE r.m = "sabr" -> <<q.z[1], Beside(r.p.r, q.z[1], q.z[2])>>[i]
                          [] r.m = "td" -> <<q.z[1], Beside(ScheduleAt(r.p.r, q.t), q.z[1], q.z[2])>>[i]
                          [] OTHER -> Correlate(Cholesky(HhwMatrix(r.p.c)), q.z)[i])]))
    [] r.kind = "simulate" ->
         IF r.m = "slv"
         THEN LET want == SlvWalk(r.p, q.end, q.n, q.paths, q.bins, q.z) IN
              /\ Same(Key(r) \o " number of paths", Len(r.out), q.paths)
              /\ \A k \in 1..Len(r.out) : Alike(r, " path " \o ToString(k), r.out[k], want[k])
         ELSE LET d == q.n * Draws(r.m) IN
              /\ Same(Key(r) \o " number of paths", Len(r.out), q.paths)
              /\ \A k \in 1..Len(r.out) :
                   Alike(r, " path " \o ToString(k), r.out[k],
                         TLCEval(Walk(r.m, r.p, q.end, q.n, SubSeq(q.z, (k - 1) * d + 1, k * d))))
    [] r.kind = "constant" ->
         \* a flat schedule's constant simulator
         Alike(r, "", r.out[1],
               IF Flat(r.p.a.v) /\ Flat(r.p.r.v) /\ Flat(r.p.n.v)
               THEN <<r.p.f, r.p.a.v[1], r.p.b, r.p.r.v[1], r.p.n.v[1]>> ELSE <<"none">>)
    [] OTHER -> TRUE
SpecDynamics == TraceInit /\ [][TraceStep(JudgeDynamics)]_vars
=============================================================================
