----------------------------- MODULE SearchTrace ----------------------------
(* P21: recorded searches; one step per point the code had valued.         *)
EXTENDS Judging, NelderMead, TraceCore

VARIABLES m, i          \* the search of this lane's record, points walked
all == <<lane, pos, m, i>>

Idle == [ph |-> "idle"]
Now == Trace[At(lane, pos)]
Key == "search " \o ToString(<<Now.what, Now.x0, Now.max, Now.ftol, Now.xtol, Now.frac>>)

SInit == TraceInit /\ m = Idle /\ i = 0

Take == /\ m = Idle
        /\ At(lane, pos + 1) <= Len(Trace)
        /\ pos' = pos + 1
        /\ LET r == Trace[At(lane, pos + 1)] IN m' = Start(r.x0, r.max, r.ftol, r.xtol, r.frac)
        /\ i' = 0
        /\ lane' = lane

CloseTo(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A j \in 1..Len(x) : RClose(x[j], y[j], "1e-9", RMul("1e-12", RAdd(1, RAbs(Now.x0[j]))))

\* The code had the point valued that the machine asks for
Walk == /\ m # Idle /\ m.ph # "done"
        /\ i < Len(Now.evals)
        /\ LET e == Now.evals[i + 1]
               want == Ask(m) IN
           /\ Report(CloseTo(e[1], want), Key \o " point " \o ToString(i + 1),
                     "in phase " \o m.ph \o " the code tried " \o ToString(e[1]) \o ", the rules "
                       \o ToString(want))
           /\ m' = IF CloseTo(e[1], want) THEN Told(m, e[1], e[2]) ELSE Idle
        /\ i' = IF m' = Idle THEN 0 ELSE i + 1
        /\ UNCHANGED <<lane, pos>>

End == /\ m # Idle
       /\ m.ph = "done" \/ i = Len(Now.evals)
       /\ IF m.ph # "done"
          THEN Report(FALSE, Key, "the code stopped after " \o ToString(i) \o " points, the rules go on")
          ELSE IF i < Len(Now.evals)
          THEN Report(FALSE, Key, "the rules stop after " \o ToString(i) \o " points, the code went on")
          ELSE LET a == Answer(m) IN
               Same(Key, <<Now.out.x, Now.out.f, Now.out.it, Now.out.converged>>,
                    <<a.x, a.f, a.it, a.converged>>)
       /\ m' = Idle /\ i' = 0
       /\ UNCHANGED <<lane, pos>>

SpecSearch == SInit /\ [][Take \/ Walk \/ End]_all
=============================================================================
