------------------------------- MODULE Dupire -------------------------------
(***************************************************************************)
(* Dupire's local variance on a grid of expiries T[i] and strikes K[j]:    *)
(*   s^2 = 2 (dC/dT + (rd - rf) K dC/dK + rf C) / (K^2 d2C/dK2),           *)
(* by the finite differences of the grid's own spacing, kept between 1%    *)
(* and 200% volatility; where the butterfly or the numerator shows an      *)
(* arbitrage, the quoted variance instead.  Read bilinearly, flat outside. *)
(***************************************************************************)
EXTENDS Options, Matrix

LOCAL Increasing(x) == \A i \in 2..Len(x) : RLt(x[i - 1], x[i])
DupireAccepts(q) ==
  /\ Len(q.T) >= 3 /\ Len(q.K) >= 3
  /\ Len(q.v) = Len(q.T) /\ \A i \in 1..Len(q.v) : Len(q.v[i]) = Len(q.K)
  /\ Increasing(q.T) /\ Increasing(q.K) /\ RLt(0, q.s)

Price(q, i, j) ==
  Black("call", q.s (.) RExp((q.rd (-) q.rf) (.) q.T[i]), q.K[j],
        (q.v[i][j] (.) q.v[i][j]) (.) q.T[i], RExp(RNeg(q.rd (.) q.T[i])))
Prices(q) == TLCEval([i \in 1..Len(q.T) |-> TLCEval([j \in 1..Len(q.K) |-> Price(q, i, j)])])

\* Neighbours: both sides inside, one at the ends
LOCAL Before(i) == IF i = 1 THEN 1 ELSE i - 1
LOCAL After(i, n) == IF i = n THEN n ELSE i + 1
InT(q, c, i, j) == LET a == Before(i) b == After(i, Len(q.T)) IN
                   (c[b][j] (-) c[a][j]) (/) (q.T[b] (-) q.T[a])
InK(q, c, i, j) == LET a == Before(j) b == After(j, Len(q.K)) IN
                   (c[i][b] (-) c[i][a]) (/) (q.K[b] (-) q.K[a])
\* the second difference, at the ends that of the neighbour
Inner(j, n) == IF j = 1 THEN 2 ELSE IF j = n THEN n - 1 ELSE j
InKK(q, c, i, j) ==
  LET m == Inner(j, Len(q.K))
      lo == q.K[m] (-) q.K[m - 1]
      hi == q.K[m + 1] (-) q.K[m]
      up == (c[i][m + 1] (-) c[i][m]) (/) hi
      dn == (c[i][m] (-) c[i][m - 1]) (/) lo
  IN ((up (-) dn) (.) 2) (/) (lo (+) hi)

Numerator(q, c, i, j) ==
  InT(q, c, i, j) (+) ((q.rd (-) q.rf) (.) (q.K[j] (.) InK(q, c, i, j))) (+) (q.rf (.) c[i][j])
Butterfly(q, c, i, j) == (q.K[j] (.) q.K[j]) (.) InKK(q, c, i, j)
Banded(x) == RMax("0.0001", RMin(4, x))

\* What the prices' own error e makes of either
SlackN(q, i, j, e) ==
  LET a == Before(i) b == After(i, Len(q.T)) k == Before(j) l == After(j, Len(q.K)) IN
  (e (.) 2) (.) ((1 (/) (q.T[b] (-) q.T[a]))
                 (+) (RAbs((q.rd (-) q.rf) (.) q.K[j]) (/) (q.K[l] (-) q.K[k])) (+) RAbs(q.rf))
SlackB(q, j, e) ==
  LET m == Inner(j, Len(q.K)) lo == q.K[m] (-) q.K[m - 1] hi == q.K[m + 1] (-) q.K[m] IN
  ((q.K[j] (.) q.K[j]) (.) (e (.) 4)) (/) (lo (.) hi)

\* The local variances possible when prices are good to e
IsLocal(q, c, i, j, e, v) ==
  LET n  == Numerator(q, c, i, j)   sn == SlackN(q, i, j, e)
      b  == Butterfly(q, c, i, j)   sb == SlackB(q, j, e)
      safe == RLt("1e-8", b (-) sb) /\ RLt(0, n (-) sn)
      odd  == RLt(b (+) sb, "1e-8") \/ RLt(n (+) sn, 0)
      lo == Banded((2 (.) (n (-) sn)) (/) (b (+) sb))
      hi == IF RLt(0, b (-) sb) THEN Banded((2 (.) (n (+) sn)) (/) (b (-) sb)) ELSE "4"
      dupire == RLe(lo (.) "0.9999999999", v) /\ RLe(v, hi (.) "1.0000000001")
      quoted == RClose(v, Banded(q.v[i][j] (.) q.v[i][j]), "1e-12", 0)
  IN IF safe THEN dupire ELSE IF odd THEN quoted ELSE dupire \/ quoted

\* Position of x on an axis: the cell, and how far across it
Cell(axis, x) ==
  LET n == Len(axis) IN
  IF RLe(x, axis[1]) THEN <<1, 1, "0">>
  ELSE IF RLe(axis[n], x) THEN <<n, n, "0">>
  ELSE LET i == CHOOSE i \in 2..n : RLe(x, axis[i]) /\ RLt(axis[i - 1], x)
       IN <<i - 1, i, (x (-) axis[i - 1]) (/) (axis[i] (-) axis[i - 1])>>
Mix(w, a, b) == ((1 (-) w) (.) a) (+) (w (.) b)
LocalVariance(T, K, v, t, k) ==
  LET a == Cell(T, t) b == Cell(K, k) IN
  Mix(a[3], Mix(b[3], v[a[1]][b[1]], v[a[1]][b[2]]), Mix(b[3], v[a[2]][b[1]], v[a[2]][b[2]]))
=============================================================================
