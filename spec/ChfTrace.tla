------------------------------ MODULE ChfTrace ------------------------------
(* Recorded characteristic functions and the prices made of them.          *)
EXTENDS Judging, Chf, Cos, Options, TraceCore

Key(r, what) == what \o " " \o ToString(r.in)
Complex(key, got, want, rel, abs) ==
  Report(RFinite(CRe(got)) /\ RFinite(CIm(got)) /\ CClose(got, want, rel, abs), key,
         "the code gave " \o ToString(got) \o ", the rules " \o ToString(want))
\* mean roots are as exact as P26 has them
Root == "2e-5"

JudgeShort(r) ==
  LET q == r.in
      p == q.p IN
  IF ~ShortAccepts(q.n) THEN Same(Key(r, "steps"), r.out.ok, FALSE)
  ELSE IF ~r.out.ok THEN Same(Key(r, "steps"), r.out.ok, TRUE)
  ELSE
  /\ Near(Key(r, "log forward"), r.out.x, RLn(ShortForward(p, q.T)), "1e-12", "1e-13")
  /\ Near(Key(r, "typical variance"), r.out.v, HestonVariance(p.h, q.T), "1e-10", "0")
  /\ \A i \in 1..Len(q.taus) :
       LET tau == q.taus[i] IN
       IF RLt(q.T (+) "1e-9", tau) \/ RLt(tau, 0)
       THEN \A j \in 1..Len(q.us) : Same(Key(r, "too far " \o tau), r.out.at[i][j].ok, FALSE)
       ELSE
         LET grid == TLCEval(ShortGrid(p, q.T, tau, q.n)) IN
         \A j \in 1..Len(q.us) :
           LET u == q.us[j]
               got == r.out.at[i][j]
               key == Key(r, "tau " \o tau \o " u " \o ToString(u))
               a == TLCEval(ShortA(p, u, tau, q.n, grid))
               c == TLCEval(Heston(p.h, p.c[1], u, tau)[1])
               \* of the terms with a mean root in them
               err == TLCEval((Root (.) tau) (.) (CAbs(u) (+) CAbs(CMul(u, u)))
                         (.) (((RAbs(p.nd) (+) RAbs(p.nf)) (.) (tau (+) "0.1")) (+) "0.001"))
           IN /\ Complex(key \o " B", got.b, Iu(u), "1e-14", "0")
              /\ Complex(key \o " C", got.c, c, "1e-10", "1e-12")
              /\ Complex(key \o " A", got.a, a, "1e-10", "1e-12" (+) err)
              /\ "phi" \in DOMAIN got =>
                   Complex(key \o " phi", got.phi, ShortChf(p, u, q.T, a), "1e-10" (+) err, "1e-13")

JudgeTerm(r) ==
  LET q == r.in
      p == q.p IN
  IF ~TermAccepts(p, q.T, q.sub, q.n, q.libor) THEN Same(Key(r, "accepted"), r.out.ok, FALSE)
  ELSE IF ~r.out.ok THEN Same(Key(r, "accepted"), r.out.ok, TRUE)
  ELSE
  LET fix == TLCEval(Fixings(p, q.T, Parts(p, q.T, q.sub, q.libor), q.n, q.libor))
      rough == TLCEval(RSum([x \in 1..Len(fix) |-> fix[x][5]])) IN
  /\ Near(Key(r, "log forward"), r.out.x, RLn(p.x), "1e-12", "1e-13")
  /\ Near(Key(r, "typical variance"), r.out.v, HestonVariance(p.h, q.T), "1e-10", "0")
  /\ \A j \in 1..Len(q.us) :
       LET u == q.us[j]
           got == r.out.at[j]
           key == Key(r, "u " \o ToString(u))
           w == TLCEval(TermParts(p, u, q.T, fix))
           err == TLCEval("1e-10" (+) ((Root (.) CAbs(Bb(u))) (.) rough))
       IN /\ Complex(key \o " B", got.b, Iu(u), "1e-14", "0")
          /\ Complex(key \o " C", got.c, w[2], "1e-9", "1e-11")
          /\ Complex(key \o " D domestic", got.dd, w[3], "1e-9", "1e-11")
          /\ Complex(key \o " D foreign", got.df, w[4], "1e-9", "1e-11")
          /\ Complex(key \o " A", got.a, w[1], "1e-9", err)
          /\ Complex(key \o " phi", got.phi, TermChf(p, u, w), "1e-8" (+) err, "1e-12")

\* A price is the series' whatever the function; of normal laws mixed it is
\* also theirs, when they fit in the range and the terms resolve them.
MixedChf(mix, u) ==
  FoldLeft(LAMBDA s, m : CAdd(s, CMul(m[1], CExp(<<RNeg(((u (.) u) (.) m[3]) (/) 2), u (.) m[2]>>))), "0", mix)
MixedPrice(type, mix, k, df) ==
  RSum([i \in 1..Len(mix) |->
     mix[i][1] (.) Black(type, RExp(mix[i][2] (+) (mix[i][3] (/) 2)), k, mix[i][3], df)])
Fits(mix, lo, hi, n) ==
  \A i \in 1..Len(mix) :
    LET s == RSqrt(mix[i][3]) IN
    /\ RLe(lo, mix[i][2] (-) (8 (.) s)) /\ RLe((mix[i][2] (+) mix[i][3]) (+) (8 (.) s), hi)
    /\ RLe(8, Frequency(lo, hi, n) (.) s)
JudgeCos(r) ==
  LET q == r.in IN
  CASE r.kind = "range" ->
         /\ Same(Key(r, "terms"), r.out.n, 128)
         /\ LET w == DefaultRange(q.x, q.v, q.T) IN
            /\ Near(Key(r, "from"), r.out.lo, w[1], "1e-12", "1e-13")
            /\ Near(Key(r, "to"), r.out.hi, w[2], "1e-12", "1e-13")
    [] r.kind = "refusals" -> Same(Key(r, "settings"), r.out, IF q.n >= 2 /\ RLt(q.lo, q.hi) /\ RLt(0, q.k) THEN "ok" ELSE "panic")
    [] r.kind = "prices" ->
         LET phi == TLCEval(IF Len(q.mix) = 0 THEN q.phi
                            ELSE [k \in 1..q.n |-> MixedChf(q.mix, Frequency(q.lo, q.hi, k - 1))]) IN
         \A i \in 1..Len(q.ks) :
           LET k == q.ks[i]
               tol == TLCEval("1e-12" (.) CosScale(k, q.df, q.lo, q.hi))
               key == Key(r, "strike " \o k) IN
           /\ Near(key \o " call", r.out[i][1], CosPrice("call", k, q.df, q.lo, q.hi, phi), "1e-11", tol)
           /\ Near(key \o " put", r.out[i][2], CosPrice("put", k, q.df, q.lo, q.hi, phi), "1e-11", tol)
           /\ (Len(q.mix) > 0 /\ Fits(q.mix, q.lo, q.hi, q.n)) =>
                LET off == tol (+) ("1e-11" (.) CosScale(k, q.df, q.lo, q.hi)) IN
                /\ Near(key \o " call's expectation", r.out[i][1], MixedPrice("call", q.mix, k, q.df), "1e-9", off)
                /\ Near(key \o " put's expectation", r.out[i][2], MixedPrice("put", q.mix, k, q.df), "1e-9", off)

Judge(r) ==
  CASE r.kind = "short" -> JudgeShort(r)
    [] r.kind = "term" -> JudgeTerm(r)
    [] OTHER -> JudgeCos(r)
Spec == TraceInit /\ [][TraceStep(Judge)]_vars
=============================================================================
