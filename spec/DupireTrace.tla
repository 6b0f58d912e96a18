----------------------------- MODULE DupireTrace ----------------------------
(* Recorded local-volatility surfaces and readings of them.                *)
EXTENDS Judging, Dupire, TraceCore

Key(r, what) == what \o " " \o ToString(r.in)
Largest(q) == FoldLeft(LAMBDA a, x : RMax(a, x), "0", q)
\* the prices' accuracy: the normal distribution is good to 1e-10
Grain(q) ==
  "1e-10" (.) (Largest([i \in 1..Len(q.T) |-> q.s (.) RExp(RNeg(q.rf (.) q.T[i]))])
               (+) (q.K[Len(q.K)] (.) Largest([i \in 1..Len(q.T) |-> RExp(RNeg(q.rd (.) q.T[i]))])))

JudgeDupire(r) ==
  LET q == r.in IN
  IF ~r.ok THEN Same(Key(r, "surface"), r.ok, DupireAccepts(q))
  ELSE IF ~DupireAccepts(q) THEN Same(Key(r, "surface"), "accepted", "refused")
  ELSE
    LET c == Prices(q)
        e == TLCEval(Grain(q)) IN
    /\ Same(Key(r, "times"), <<r.out.tr, r.out.kr>>, <<<<q.T[1], q.T[Len(q.T)]>>, <<q.K[1], q.K[Len(q.K)]>>>>)
    /\ \A i \in 1..Len(q.T) : \A j \in 1..Len(q.K) :
         Report(IsLocal(q, c, i, j, e, r.out.v[i][j]), Key(r, "local variance at " \o ToString(<<i, j>>)),
                "the code gave " \o r.out.v[i][j] \o ", the prices " \o
                ToString(<<Numerator(q, c, i, j), Butterfly(q, c, i, j)>>))
    /\ \A n \in 1..Len(r.out.reads) :
         LET x == r.out.reads[n]
             v == TLCEval(LocalVariance(q.T, q.K, r.out.v, x[1], x[2])) IN
         /\ Near(Key(r, "reading at " \o ToString(<<x[1], x[2]>>)), x[3], v, "1e-11", "0")
         /\ Near(Key(r, "volatility at " \o ToString(<<x[1], x[2]>>)), x[4], RSqrt(v), "1e-11", "0")
SpecDupire == TraceInit /\ [][TraceStep(JudgeDupire)]_vars
=============================================================================
