---------------------------- MODULE CalendarTrace ---------------------------
(***************************************************************************)
(* P01.  In every calendar and every year the business days of the code    *)
(* are those of the rules; so are the Easter Mondays it is built on.       *)
(***************************************************************************)
EXTENDS Calendars, TraceCore, SequencesExt

JudgeYear(r) ==
  LET got == ToSet(r.h)  want == ClosedWeekdays(r.cal, r.y)
      opn == ToSet(r.open)  owant == OpenWeekendDays(r.cal, r.y) IN
  Report(Len(r.bad) = 0 /\ got = want /\ opn = owant,
         r.cal \o ":" \o ToString(r.y),
         "closed but should be open: " \o ToString((got \ want) \cup (owant \ opn))
           \o " open but should be closed: " \o ToString((want \ got) \cup (opn \ owant))
           \o " (days of the year) inconsistent or panicking: " \o ToString(r.bad))

JudgeEaster(r) ==
  Report(/\ r.western = EasterMon(r.y) - BeforeYear(r.y)
         /\ r.orthodox = OrthEasterMon(r.y) - BeforeYear(r.y),
         "Easter:" \o ToString(r.y),
         "the code gave " \o ToString(<<r.western, r.orthodox>>))

Judge(r) == IF r.k = "easter" THEN JudgeEaster(r) ELSE JudgeYear(r)

Spec == TraceInit /\ [][TraceStep(Judge)]_vars
=============================================================================
