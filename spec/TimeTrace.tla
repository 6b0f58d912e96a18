------------------------------ MODULE TimeTrace -----------------------------
(* P02, P03, P04 on what the code did.  Each record holds a calendar (its  *)
(* exceptions to the weekend, or to being always open) and questions put   *)
(* to the real one.                                                        *)
EXTENDS BusinessDays, TraceCore, SequencesExt

Flag(f, dflt) == IF f = "none" THEN dflt ELSE f = "yes"

Calendar(r, x, s) ==        \* the record's business days
  (IF r.we THEN Dow(s) \notin {Sat, Sun} ELSE TRUE) # (s \in x)

Same(key, got, want) ==
  Report(got = want, key, "the code gave " \o ToString(got) \o ", the rules "
           \o ToString(want))

JudgeAdjust(r) ==
  LET x == ToSet(r.x)
      B(s) == Calendar(r, x, s)
  IN \A i \in 1..Len(r.q) :
       LET q == r.q[i] IN
       Same("adjust " \o ToString(<<q[1], q[2], r.x>>), q[3], Adjust(B, q[1], q[2]))

JudgeAdvance(r) ==
  LET x == ToSet(r.x)
      B(s) == Calendar(r, x, s)
  IN \A i \in 1..Len(r.q) :
       LET q == r.q[i] IN
       Same("advance " \o ToString(<<q[1], r.p, q[2], q[3], r.x>>), q[4],
            Advance(B, q[1], r.p, q[2], Flag(q[3], FALSE)))

JudgeBetween(r) ==
  LET x == ToSet(r.x)
      B(s) == Calendar(r, x, s)
  IN /\ \A i \in 1..Len(r.q) :
          LET q == r.q[i] IN
          Same("between " \o ToString(<<q[1], q[2], q[3], q[4], r.x>>), q[5],
               BusinessDaysBetween(B, q[1], q[2], Flag(q[3], TRUE), Flag(q[4], FALSE)))
     /\ \A i \in 1..Len(r.e) :
          LET e == r.e[i] IN
          /\ Same("end of month " \o ToString(<<e[1], r.x>>), e[2],
                  LastBusinessDayOfMonth(B, e[1]))
          /\ Same("last day of month " \o ToString(e[1]), e[3], LastOfMonth(e[1]))

NextAdjust  == TraceStep(JudgeAdjust)
NextAdvance == TraceStep(JudgeAdvance)
NextBetween == TraceStep(JudgeBetween)
SpecAdjust  == TraceInit /\ [][NextAdjust]_vars
SpecAdvance == TraceInit /\ [][NextAdvance]_vars
SpecBetween == TraceInit /\ [][NextBetween]_vars
=============================================================================
