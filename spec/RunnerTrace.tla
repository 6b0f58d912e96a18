----------------------------- MODULE RunnerTrace ----------------------------
(* P22: recorded runs of a probe model, every call to the model walked.    *)
EXTENDS DayCount, RunnerRules, Judging, TraceCore

VARIABLES m, i         \* this lane's run, and calls walked
all == <<lane, pos, m, i>>

Idle == [path |-> -1]
Now == Trace[At(lane, pos)]
Key(r) == "run " \o ToString(<<r.dc, r.s, r.obs, r.n, r.cap, r.x>>)

TimeOf(r, d) ==
  IF r.dc = "Business252"
  THEN LET x == ToSet(r.x)
           B(s) == PatternOpen(TRUE, x, s)
       IN RDiv(Count252(B, r.s, d), 252)
  ELSE SumParts(YearParts(r.dc, r.s, d, r.t))
T(d) == TimeOf(Now, d)

RInit == TraceInit /\ m = Idle /\ i = 0

Take == /\ m = Idle
        /\ At(lane, pos + 1) <= Len(Trace)
        /\ pos' = pos + 1
        /\ LET r == Trace[At(lane, pos + 1)] IN
           IF Refused(r.s, r.obs, r.n, r.cap)
           THEN Same(Key(r), r.out.paths, <<<<"panic">>>>) /\ m' = Idle
           ELSE IF r.out.paths = <<<<"panic">>>>
           THEN Same(Key(r), "panic", "paths") /\ m' = Idle
           ELSE m' = Begin
        /\ i' = 0
        /\ lane' = lane

Event == IF i < Len(Now.calls) THEN Now.calls[i + 1] ELSE <<"nothing", "0.0", "0.0", "0.0", "0.0">>
Given(want) == ToString(Event) \o " where the rules ask for " \o want

Fresh == /\ m # Idle /\ m.left = {} /\ m.path < Now.n
         /\ Report(Event[1] = "initial", Key(Now), Given("an initial state"))
         /\ m' = IF Event[1] = "initial" THEN NextPath(m, Now.s, Now.obs, Now.cap, Event[5]) ELSE Idle
         /\ i' = i + 1
         /\ UNCHANGED <<lane, pos>>

Agrees == /\ Event[1] = "step" /\ Event[2] = m.st
          /\ RClose(Event[3], Middle(m, T), "1e-12", "1e-12")
          /\ RClose(Event[4], Gap(m, T), "1e-9", "1e-13")

Move == /\ m # Idle /\ m.left # {}
        /\ IF Moves(m, T)
           THEN /\ Report(Agrees, Key(Now),
                          Given("a step from " \o ToString(<<m.st, Middle(m, T), Gap(m, T)>>)))
                /\ m' = IF Agrees THEN Arrive(m, Now.obs, Event[5]) ELSE Idle
                /\ i' = i + 1
           ELSE m' = Arrive(m, Now.obs, m.st) /\ i' = i
        /\ UNCHANGED <<lane, pos>>

\* The state of every path at a date, when it was observed; with duplicates
\* any of them, which are equal
AtDate(d) ==
  IF d \in ToSet(Now.obs)
  THEN LET j == CHOOSE j \in 1..Len(Now.obs) : InOrder(Now.obs)[j] = d
       IN [p \in 1..Now.n |-> m.out[p][j]]
  ELSE <<"none">>
Finish == /\ m # Idle /\ Over(m, Now.n)
          /\ Report(i = Len(Now.calls), Key(Now), Given("no more calls"))
          /\ Same(Key(Now) \o " paths", <<Now.out.paths, Now.out.dates, Now.out.s, Now.out.n>>,
                  <<m.out, InOrder(Now.obs), Now.s, Now.n>>)
          /\ \A k \in 1..Len(Now.ask) :
               Same(Key(Now) \o " on " \o ToString(Now.ask[k]), <<Now.out.at[k], Now.out.sample[k]>>,
                    <<AtDate(Now.ask[k]), AtDate(Now.ask[k])>>)
          /\ m' = Idle /\ i' = 0
          /\ UNCHANGED <<lane, pos>>

SpecRunner == RInit /\ [][Take \/ Fresh \/ Move \/ Finish]_all
=============================================================================
