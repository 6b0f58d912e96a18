----------------------------- MODULE RunnerRules ----------------------------
(***************************************************************************)
(* Driving a model along dates: one path after another, each from the      *)
(* model's initial state at date s through the grid of dates, moving the   *)
(* model over every gap that takes time, and keeping its state at each     *)
(* observation date.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, RealMath, SequencesExt

Refused(s, obs, n, cap) ==
  n < 1 \/ cap < 1 \/ obs = <<>> \/ \E i \in 1..Len(obs) : obs[i] <= s

Latest(obs) == CHOOSE d \in ToSet(obs) : \A e \in ToSet(obs) : e <= d
\* Every observation date, and no gap longer than cap days
Grid(s, obs, cap) ==
  {s + k * cap : k \in 0..((Latest(obs) - s) \div cap)} \cup ToSet(obs)

Times(obs, d) == Cardinality({i \in 1..Len(obs) : obs[i] = d})
InOrder(obs) == SortSeq(obs, LAMBDA a, b : a < b)

Begin == [path |-> 0, left |-> {}, at |-> 0, st |-> "none", held |-> <<>>, out |-> <<>>]
Over(m, n) == m.left = {} /\ m.path = n

NextPath(m, s, obs, cap, st) ==
  [m EXCEPT !.path = m.path + 1, !.left = Grid(s, obs, cap) \ {s}, !.at = s,
            !.st = st, !.held = <<>>]

To(m) == CHOOSE d \in m.left : \A e \in m.left : d <= e
\* What the model is asked for, given the times of dates: the middle of the
\* gap and its length
Gap(m, T(_)) == RSub(T(To(m)), T(m.at))
Middle(m, T(_)) == RMul("0.5", RAdd(T(To(m)), T(m.at)))
\* A gap that takes no time does not move the model
Moves(m, T(_)) == RLt(0, Gap(m, T))

Arrive(m, obs, st) ==
  LET d == To(m)
      held == m.held \o [i \in 1..Times(obs, d) |-> st]
      left == m.left \ {d} IN
  [m EXCEPT !.left = left, !.at = d, !.st = st, !.held = held,
            !.out = IF left = {} THEN Append(m.out, held) ELSE m.out]
=============================================================================
