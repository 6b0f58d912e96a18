----------------------------- MODULE NelderMead -----------------------------
(***************************************************************************)
(* The Nelder-Mead search as a machine that asks for the objective at one  *)
(* point after another.  The objective is its environment: Ask is the      *)
(* point the machine wants valued next, Told the machine after the answer. *)
(***************************************************************************)
EXTENDS RealMath, FiniteSetsExt, SequencesExt

LOCAL Num(n) == Len(n.x0)

\* The i-th corner of the first simplex: the start, then one step along each axis
Corner(m, i) ==
  IF i = 1 THEN m.x0
  ELSE LET c == m.x0[i - 1]
           step == IF RLt("1e-12", RAbs(c)) THEN RMul(m.frac, RAbs(c)) ELSE RMax(m.frac, "1e-4")
       IN [m.x0 EXCEPT ![i - 1] = RAdd(c, step)]

\* From p a multiple w of the way to q
Toward(p, q, w) == [j \in 1..Len(p) |-> RAdd(p[j], RMul(w, RSub(q[j], p[j])))]

\* Corners from the best to the worst, equal ones in their order
Ranked(vals) ==
  SetToSortSeq(1..Len(vals),
               LAMBDA a, b : IF REq(vals[a], vals[b]) THEN a < b ELSE RLt(vals[a], vals[b]))

Best(m)   == m.rank[1]
Worst(m)  == m.rank[Len(m.rank)]
Second(m) == m.rank[Len(m.rank) - 1]

Centre(m) ==
  [j \in 1..Num(m) |-> RDiv(RSum([i \in 1..Num(m) |-> m.pts[m.rank[i]][j]]), Num(m))]

Spread(q) == RSub(FoldSeq(LAMBDA a, b : RMax(a, b), q[1], q), FoldSeq(LAMBDA a, b : RMin(a, b), q[1], q))
Collapsed(m) ==
  /\ RLt(RSub(m.vals[Worst(m)], m.vals[Best(m)]), m.ftol)
  /\ \A j \in 1..Num(m) : RLt(Spread([i \in 1..Len(m.pts) |-> m.pts[i][j]]), m.xtol)

Start(x0, max, ftol, xtol, frac) ==
  [ph |-> "seed", x0 |-> x0, max |-> max, ftol |-> ftol, xtol |-> xtol, frac |-> frac,
   pts |-> <<>>, vals |-> <<>>, rank |-> <<>>, it |-> 0, xr |-> <<>>, fr |-> "0",
   left |-> <<>>, converged |-> FALSE]

\* A new iteration, unless the search is over
Round(m) ==
  IF m.it >= m.max THEN [m EXCEPT !.ph = "done"]
  ELSE LET r == [m EXCEPT !.it = @ + 1, !.rank = Ranked(m.vals)] IN
       IF Collapsed(r) THEN [r EXCEPT !.ph = "done", !.converged = TRUE]
       ELSE [r EXCEPT !.ph = "reflect"]

Ask(m) ==
  CASE m.ph = "seed"     -> Corner(m, Len(m.pts) + 1)
    [] m.ph = "reflect"  -> Toward(Centre(m), m.pts[Worst(m)], -1)
    [] m.ph = "expand"   -> Toward(Centre(m), m.xr, 2)
    [] m.ph = "contract" -> Toward(Centre(m), m.pts[Worst(m)], "0.5")
    [] m.ph = "shrink"   -> Toward(m.pts[Best(m)], m.pts[Head(m.left)], "0.5")

Put(m, i, x, f) == [m EXCEPT !.pts[i] = x, !.vals[i] = f]

\* x is the point asked for, f its value
Told(m, x, f) ==
  CASE m.ph = "seed" ->
         LET s == [m EXCEPT !.pts = Append(@, x), !.vals = Append(@, f)] IN
         IF Len(s.pts) = Num(m) + 1 THEN Round(s) ELSE s
    [] m.ph = "reflect" ->
         IF RLt(f, m.vals[Best(m)]) THEN [m EXCEPT !.ph = "expand", !.xr = x, !.fr = f]
         ELSE IF RLt(f, m.vals[Second(m)]) THEN Round(Put(m, Worst(m), x, f))
         ELSE [m EXCEPT !.ph = "contract"]
    [] m.ph = "expand" ->
         Round(IF RLt(f, m.fr) THEN Put(m, Worst(m), x, f) ELSE Put(m, Worst(m), m.xr, m.fr))
    [] m.ph = "contract" ->
         IF RLt(f, m.vals[Worst(m)]) THEN Round(Put(m, Worst(m), x, f))
         ELSE [m EXCEPT !.ph = "shrink", !.left = Tail(m.rank)]
    [] m.ph = "shrink" ->
         LET s == [Put(m, Head(m.left), x, f) EXCEPT !.left = Tail(@)] IN
         IF s.left = <<>> THEN Round(s) ELSE s

\* What it reports when done: the best corner (the first of equal ones)
Answer(m) ==
  LET b == Ranked(m.vals)[1] IN
  [x |-> m.pts[b], f |-> m.vals[b], it |-> m.it, converged |-> m.converged]
=============================================================================
