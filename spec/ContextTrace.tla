---------------------------- MODULE ContextTrace ----------------------------
(* P24: a market context built from raw quotes answers as its parts, built *)
(* from the same quotes, do.                                               *)
EXTENDS FxValue, FxSmile, Judging, TraceCore

CashSettle(B(_), s, c)   == Advance(B, s, <<"D", c[3]>>, c[4], c[6])
CashMaturity(B(_), s, c) == Advance(B, CashSettle(B, s, c), c[2], c[4], c[6])

\* The curve of cash quotes <<rate, tenor, lag, convention, day count, eom>>
CashCurve(B(_), s, cash) ==
  LET pillar(c) ==
        LET a == CashSettle(B, s, c)
            b == CashMaturity(B, s, c)
            acc == RAdd(1, RMul(c[1], SumParts(YearParts(c[5], a, b, b)))) IN
        <<b, RDiv(RLn(acc), Years365(a, b)), c[2] = <<"W", 1>> >>
  IN SortSeq([i \in 1..Len(cash) |-> pillar(cash[i])], LAMBDA p, q : p[1] < q[1])

JudgeFx(r) ==
  LET xd == ToSet(r.xd)  xf == ToSet(r.xf)  x == ToSet(r.x)
      Bd(d) == PatternOpen(r.wed, xd, d)
      Bf(d) == PatternOpen(r.wef, xf, d)
      B(d) == PatternOpen(r.we, x, d)
      dom == CashCurve(Bd, r.s, r.cashd)
      frn == CashCurve(Bf, r.s, r.cashf)
      smiles == [i \in 1..Len(r.pillars) |-> Smile(r.s, r.pillars[i])]
      valid == \A i \in 1..Len(r.pillars) : PillarValid(r.s, r.pillars[i])
      key == ToString(<<r.pair, r.s, r.spot, r.cashd, r.cashf, r.quotes>>)
  IN /\ Same("context " \o key, r.how, IF valid THEN "ok" ELSE "error")
     /\ (valid /\ r.how = "ok") =>
        /\ Same("its data " \o key, r.head, <<r.s, r.spot, Quote(r.pair), Base(r.pair),
                                             r.given[1], r.given[2], r.s, r.spot>>)
        /\ \A i \in 1..Len(r.q) :
             LET q == r.q[i]
                 pts == PointsAt(B, r.s, r.quotes, SpotLag(r.pair), q[1])
                 at == ToString(q[1]) \o " " \o key IN
             /\ Report(\E p \in pts :
                         IF p = "none" THEN q[2] = "error"
                         ELSE ~Word(q[2]) /\ RClose(q[2], RAdd(r.spot, RDiv(p, PointsPerUnit(r.pair))), "1e-11", 0),
                       "outright " \o at, "the code gave " \o q[2] \o ", points are " \o ToString(pts))
             /\ Near("domestic rate " \o at, q[3], Zero(dom, q[1]), "1e-9", "1e-12")
             /\ Near("foreign rate " \o at, q[4], Zero(frn, q[1]), "1e-9", "1e-12")
             /\ Near("domestic discount " \o at, q[5], Discount(dom, r.s, q[1]), "1e-9", 0)
             /\ Near("foreign discount " \o at, q[6], Discount(frn, r.s, q[1]), "1e-9", 0)
        /\ \A i \in 1..Len(r.vols) :
             Near("volatility " \o ToString(r.vols[i]) \o key, r.vols[i][3],
                  SurfaceVol(r.s, smiles, r.vols[i][1], r.vols[i][2]), "1e-8", "1e-10")

JudgeIr(r) ==
  LET x == ToSet(r.x)
      B(d) == PatternOpen(r.we, x, d)
      pil == CashCurve(B, r.s, r.cash)
      key == ToString(<<r.s, r.cash, r.caps>>)
  IN /\ Same("context " \o key, r.how, "ok")
     /\ r.how = "ok" =>
        /\ Same("its data " \o key, r.head, <<r.s, r.ccy, r.given>>)
        /\ \A i \in 1..Len(r.q) :
             /\ Near("rate " \o ToString(r.q[i][1]) \o key, r.q[i][2], Zero(pil, r.q[i][1]), "1e-9", "1e-12")
             /\ Near("discount " \o ToString(r.q[i][1]) \o key, r.q[i][3], Discount(pil, r.s, r.q[i][1]), "1e-9", 0)
        /\ \A i \in 1..Len(r.vols) :
             Near("caplet volatility " \o key, r.vols[i], IF r.caps THEN r.sigma ELSE "error", "1e-5", 0)

JudgeContext(r) == IF r.k = "fx" THEN JudgeFx(r) ELSE JudgeIr(r)
SpecContext == TraceInit /\ [][TraceStep(JudgeContext)]_vars
=============================================================================
