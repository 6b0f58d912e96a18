----------------------------- MODULE DupireLaws -----------------------------
(***************************************************************************)
(* What Dupire.tla's finite differences must give where the answer is      *)
(* known: an implied volatility that depends on the expiry alone, with     *)
(* total variance w(T), has local variance w'(T) at every strike.          *)
(***************************************************************************)
EXTENDS Dupire, Conform, TLC
CONSTANT Sets
VARIABLES i
vars == <<i>>
Spread(k, lo, hi) == lo (+) ((hi (-) lo) (.) (((i * 7919 + k * 104729) % 997) (/) 997))
a == Spread(1, "0.01", "0.1")
b == Spread(2, "-0.004", "0.02")
W(T) == (a (.) T) (+) (b (.) (T (.) T))
T0 == Spread(3, "0.4", "1.5")
S  == Spread(4, "0.5", "2")
Q == LET T == <<T0 (-) "0.002", T0, T0 (+) "0.002">>
         K == [j \in 1..5 |-> S (.) (RExp(Spread(5, "-0.1", "0.1")) (+) ("0.005" (.) (j - 3)))]
     IN [T |-> T, K |-> K, s |-> S, rd |-> Spread(6, "-0.02", "0.1"), rf |-> Spread(7, "-0.02", "0.1"),
         v |-> [x \in 1..3 |-> [j \in 1..5 |-> RSqrt(W(T[x]) (/) T[x])]]]
Flat ==
  LET q == Q c == Prices(q) IN
  \A j \in 2..4 :
    LET want == Banded(a (+) ((2 (.) b) (.) T0))
        got == Banded((2 (.) Numerator(q, c, 2, j)) (/) Butterfly(q, c, 2, j)) IN
    Report(RClose(got, want, "0.01", 0), "Dupire " \o ToString(<<i, j>>), ToString(<<got, want>>))
\* A reading at a node is the node's
Nodes ==
  LET q == Q IN
  \A x \in 1..3 : \A j \in 1..5 :
    Report(RClose(LocalVariance(q.T, q.K, q.v, q.T[x], q.K[j]), q.v[x][j], "1e-12", 0), "node", ToString(<<x, j>>))
Lawful == Flat /\ Nodes
Init == i = 1
Next == i < Sets /\ i' = i + 1
Spec == Init /\ [][Next]_vars
=============================================================================
