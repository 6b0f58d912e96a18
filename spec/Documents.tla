------------------------------ MODULE Documents -----------------------------
(***************************************************************************)
(* P23.  A value lives in memory, is written as a document and read back   *)
(* from it, any number of times and in any of JSON's layouts.  It means    *)
(* the same all along - a calendar closes on the same days, a day counter  *)
(* counts the same, an instrument has the same terms - and its document    *)
(* stays the same.  What a calendar or a counter means is the rules' to    *)
(* say.  Values that differ have documents that differ, and a document of  *)
(* no value is refused.                                                    *)
(***************************************************************************)
EXTENDS Calendars, DayCount, Judging, TraceCore, SequencesExt

VARIABLES held,         \* the document and the meaning of this lane's value
          i             \* 0 when there is none, else 1 more than how often it was read
all == <<lane, pos, held, i>>

None == [doc |-> "", means |-> ""]
Now == Trace[At(lane, pos)]
Key(r) == r.family \o " " \o ToString(r.name) \o " as " \o ToString(r.how)

-----------------------------------------------------------------------------
(* Meanings.  A joint calendar is closed when any member is.               *)
WeekendDays(y) ==
  {k \in 1..(BeforeYear(y + 1) - BeforeYear(y)) : Dow(BeforeYear(y) + k) \in {5, 6}}
\* the days of year y on which the calendar of that name is closed
DaysClosed(c, y) == (WeekendDays(y) \ OpenWeekendDays(c, y)) \cup ClosedWeekdays(c, y)
JointClosed(names, y) == UNION {DaysClosed(names[j], y) : j \in 1..Len(names)}

MeansCalendar(r, got) ==
  LET y == r.name[2]
      want == JointClosed(r.name[1], y) IN
  Same(Key(r) \o " closed", <<ToSet(got[1]), ToSet(got[2])>>,
       <<want \ WeekendDays(y), WeekendDays(y) \ want>>)

MeansCounter(r, got) ==
  \A j \in 1..Len(got) :
    LET q == got[j] IN
    /\ Same(Key(r) \o " day count " \o ToString(<<q[1], q[2]>>), q[3], Count(r.name[1], q[1], q[2], r.name[2]))
    /\ SameReal(Key(r) \o " year fraction " \o ToString(<<q[1], q[2]>>), q[4],
                SumParts(YearParts(r.name[1], q[1], q[2], r.name[2])))

MeansBusiness(r, got) ==
  LET x == ToSet(r.x)
      B(s) == PatternOpen(TRUE, x, s) IN
  \A j \in 1..Len(got) :
    LET q == got[j] IN
    Same(Key(r) \o " day count " \o ToString(<<q[1], q[2]>>), q[3], Count252(B, q[1], q[2]))

Means(r, got) ==
  CASE r.family = "calendar" -> MeansCalendar(r, got)
    [] r.family = "counter" -> MeansCounter(r, got)
    [] r.family = "b252" -> MeansBusiness(r, got)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
DInit == TraceInit /\ held = None /\ i = 0

\* a value made in memory
Make == /\ i = 0
        /\ At(lane, pos + 1) <= Len(Trace)
        /\ pos' = pos + 1
        /\ LET r == Trace[At(lane, pos + 1)] IN
           IF r.k = "kept"
           THEN /\ Report(r.docs[1] # "refused" /\ ToString(r.answers[1]) # ToString("panic"), Key(r), "it has no document or no meaning")
                /\ ToString(r.answers[1]) # ToString("panic") => Means(r, r.answers[1])
                /\ held' = [doc |-> r.docs[1], means |-> ToString(r.answers[1])]
                /\ i' = 1
           ELSE /\ IF r.k = "family"
                   THEN /\ Same(r.family \o " read back", r.back, r.names)
                        /\ Same(r.family \o " documents", Cardinality(ToSet(r.docs)), Len(r.docs))
                   ELSE Same(r.family \o " from " \o r.text, r.got, "refused")
                /\ held' = None
                /\ i' = 0
        /\ lane' = lane

\* ... written, and what was written read
Round == /\ i > 0 /\ i < Len(Now.docs)
         /\ i' = i + 1
         /\ Same(Key(Now) \o " document", Now.docs[i + 1], held.doc)
         /\ Same(Key(Now) \o " meaning", ToString(Now.answers[i + 1]), held.means)
         /\ UNCHANGED <<lane, pos, held>>

Forget == /\ i > 0 /\ i = Len(Now.docs)
          /\ held' = None /\ i' = 0
          /\ UNCHANGED <<lane, pos>>

SpecDocuments == DInit /\ [][Make \/ Round \/ Forget]_all
=============================================================================
