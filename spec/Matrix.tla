------------------------------- MODULE Matrix -------------------------------
(* Correlation matrices, as sequences of rows.                             *)
EXTENDS RealMath, SequencesExt

Upto(n) == [i \in 1..n |-> i]

\* The lower factor L of C = L L', row by row
Cholesky(C) ==
  FoldLeft(LAMBDA rows, i :
    Append(rows,
      FoldLeft(LAMBDA row, j :
        Append(row, IF j = i THEN RSqrt(C[i][i] (-) RDot(row, row))
                    ELSE (C[i][j] (-) RDot(row, SubSeq(rows[j], 1, j - 1))) (/) rows[j][j]),
        <<>>, Upto(i))),
    <<>>, Upto(Len(C)))

PosDef(L) == \A i \in 1..Len(L) : RLt(0, L[i][i])

\* Correlated draws out of independent ones
Correlate(L, z) == [i \in 1..Len(L) |-> RDot(L[i], SubSeq(z, 1, i))]

\* The other half of a correlated pair
Beside(rho, x, z) == (rho (.) x) (+) (RSqrt(1 (-) (rho (.) rho)) (.) z)
=============================================================================
