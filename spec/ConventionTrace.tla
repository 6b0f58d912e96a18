--------------------------- MODULE ConventionTrace --------------------------
(* P05 (joint calendars), P06 (day counts), P07 (periods), P08 (IMM) and   *)
(* P09 (FX dates) on what the code did.                                    *)
EXTENDS Calendars, DayCount, Imm, FxDates, Judging, TraceCore, SequencesExt

Open(r, x, s) == PatternOpen(r.we, x, s)

-----------------------------------------------------------------------------
JudgeJoint(r) ==
  CASE r.k = "joint" ->
         Same("joint " \o r.how \o " " \o ToString(<<r.names, r.y>>), ToSet(r.j),
              UNION {ToSet(r.m[i]) : i \in 1..Len(r.m)})
    [] r.k = "pair" ->
         LET a == HomeCalendar(Base(r.pair))
             b == HomeCalendar(Quote(r.pair)) IN
         /\ Same("pair calendar " \o r.pair \o " " \o ToString(r.y), ToSet(r.h),
                 ClosedWeekdays(a, r.y) \cup ClosedWeekdays(b, r.y))
         /\ Same("pair weekends " \o r.pair \o " " \o ToString(r.y), ToSet(r.open),
                 OpenWeekendDays(a, r.y) \cap OpenWeekendDays(b, r.y))
    [] r.k = "conv" -> TRUE

JudgeConv(r) ==
  r.k = "conv" =>
    /\ Same("currencies " \o r.pair, <<r.name, r.frn, r.dom>>,
            <<r.pair, Base(r.pair), Quote(r.pair)>>)
    /\ Same("spot lag " \o r.pair, r.settles, SpotLag(r.pair))
    /\ SameReal("points " \o r.pair, r.points, PointsPerUnit(r.pair))
    /\ SameReal("day count " \o r.pair, r.yf, RDiv(360, MoneyBasis(r.pair)))

-----------------------------------------------------------------------------
JudgeDayCount(r) ==
  CASE r.k = "dc" ->
         \A i \in 1..Len(r.q) :
           LET q == r.q[i]
               key == ToString(<<r.dc, q[1], q[2], r.t>>) IN
           /\ Same("day count " \o key, q[3], Count(r.dc, q[1], q[2], r.t))
           /\ SameReal("year fraction " \o key, q[4],
                       SumParts(YearParts(r.dc, q[1], q[2], r.t)))
    [] r.k = "b252" ->
         LET x == ToSet(r.x)
             B(s) == Open(r, x, s) IN
         \A i \in 1..Len(r.q) :
           LET q == r.q[i]
               n == Count252(B, q[1], q[2])
               key == ToString(<<q[1], q[2], r.x>>) IN
           /\ Same("business/252 count " \o key, q[3], n)
           /\ SameReal("business/252 fraction " \o key, q[4], RDiv(n, 252))
    [] r.k = "inv" ->
         Report(AbsI(r.back - r.b) <= 1, "date of fraction " \o ToString(<<r.dc, r.a, r.b>>),
                "the year fraction to " \o ToString(r.b) \o " came back as "
                  \o ToString(r.back))

-----------------------------------------------------------------------------
Times(n, p) == IF p[1] \in {"D", "W", "M", "Y"} THEN <<p[1], n * p[2]>> ELSE p

FrequencyPeriod(f) ==
  CASE f = "NoFrequency" -> <<"ON", 0>>
    [] f = "Annual" -> <<"Y", 1>>        [] f = "Semiannual" -> <<"M", 6>>
    [] f = "EveryFourthMonth" -> <<"M", 4>> [] f = "Quarterly" -> <<"M", 3>>
    [] f = "Bimonthly" -> <<"M", 2>>     [] f = "Monthly" -> <<"M", 1>>
    [] f = "EveryFourthWeek" -> <<"W", 4>> [] f = "Biweekly" -> <<"W", 2>>
    [] f = "Weekly" -> <<"W", 1>>        [] f = "Daily" -> <<"D", 1>>
    [] OTHER -> <<"none", 0>>

Coded(f) == f \notin {"NoFrequency", "Once", "OtherFrequency"}

JudgePeriod(r) ==
  CASE r.k = "plus" ->
         /\ Same("plus " \o ToString(<<r.s, r.p>>), r.add, Plus(r.s, r.p))
         /\ Same("minus " \o ToString(<<r.s, r.p>>), r.sub, Minus(r.s, r.p))
    [] r.k = "times" ->
         Same("times " \o ToString(<<r.n, r.p>>), r.r, Times(r.n, r.p))
    [] r.k = "freq" ->
         /\ Same("frequency " \o r.f, r.p, FrequencyPeriod(r.f))
         /\ Same("frequency serialised " \o r.f, r.v, r.f)
         /\ Coded(r.f) => Same("frequency code " \o r.f, <<r.from, r.from2>>, <<r.f, r.f>>)
    [] r.k = "bdc" -> Same("convention code " \o r.c, <<r.back, r.back2>>, <<TRUE, TRUE>>)

-----------------------------------------------------------------------------
MonthOfCode(c) == CHOOSE m \in 1..12 : SubSeq(c, 1, 1) \in {Upper[m], Lower[m]}
DigitOfCode(c) == (CHOOSE n \in 1..10 : SubSeq(c, 2, 2) = Digits[n]) - 1

JudgeImm(r) ==
  CASE r.k = "day" ->
         Same("imm " \o ToString(r.s),
              <<r.is, r.main, r.next, r.nextm, r.code>>,
              <<IsImm(r.s, FALSE), IsImm(r.s, TRUE), NextImm(r.s, FALSE),
                NextImm(r.s, TRUE), Code(r.s)>>)
    [] r.k = "date" ->
         \A i \in 1..Len(r.q) :
           LET c == r.q[i][1] IN
           Same("imm date of " \o c \o " from " \o ToString(r.ref), r.q[i][2],
                CodeDate(MonthOfCode(c), DigitOfCode(c), r.ref))
    [] r.k = "valid" ->
         Same("imm code " \o ToString(r.c), <<r.any, r.main>>,
              <<ValidCode(r.c, FALSE), ValidCode(r.c, TRUE)>>)

-----------------------------------------------------------------------------
JudgeFxDates(r) ==
  LET x == ToSet(r.x)
      B(s) == Open(r, x, s)
      lag == IF r.k = "pair" THEN SpotLag(r.pair) ELSE 2 IN
  /\ \A i \in 1..Len(r.q) :
       LET q == r.q[i]
           key == ToString(<<r.pair, r.s, q[1], r.x>>) IN
       /\ r.k = "pair" =>
            /\ Same("far date " \o key, q[2], FarDate(B, r.s, q[1], lag))
            /\ Same("near date " \o key, q[3], NearDate(B, r.s, q[1], lag))
       /\ Same("T+2 far date " \o key, q[4], FarDate(B, r.s, q[1], 2))
       /\ Same("T+2 near date " \o key, q[5], NearDate(B, r.s, q[1], 2))
  /\ \A i \in 1..Len(r.c) :
       Same("effective date " \o ToString(<<r.pair, r.s, r.c[i][1], r.x>>), r.c[i][2],
            EffectiveDate(B, r.pair, r.s, r.c[i][1]))

-----------------------------------------------------------------------------
SpecJoint    == TraceInit /\ [][TraceStep(JudgeJoint)]_vars
SpecConv     == TraceInit /\ [][TraceStep(JudgeConv)]_vars
SpecDayCount == TraceInit /\ [][TraceStep(JudgeDayCount)]_vars
SpecPeriod   == TraceInit /\ [][TraceStep(JudgePeriod)]_vars
SpecImm      == TraceInit /\ [][TraceStep(JudgeImm)]_vars
SpecFxDates  == TraceInit /\ [][TraceStep(JudgeFxDates)]_vars
=============================================================================
