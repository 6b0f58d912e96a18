------------------------------- MODULE FxSmile ------------------------------
(***************************************************************************)
(* The FX volatility surface quoted by delta.  A pillar p has expiry e,    *)
(* forward f and quotes q of the forms <<"atm", vol, _>>, <<"call", delta, *)
(* vol>>, <<"put", ..>>, <<"rr", ..>> and <<"bf", ..>>.                    *)
(***************************************************************************)
EXTENDS Curve, TLC, SequencesExt

SameDelta(a, b) == RLt(RAbs(RSub(a, b)), "1e-9")

Atms(q) == {i \in DOMAIN q : q[i][1] = "atm"}
DeltaQuotes(q) == {i \in DOMAIN q : q[i][1] # "atm"}
Of(q, kind, d) == {i \in DeltaQuotes(q) : q[i][1] = kind /\ SameDelta(q[i][2], d)}
VolOf(q, kind, d) == q[CHOOSE i \in Of(q, kind, d) : TRUE][3]

Direct(q, d) == Of(q, "call", d) # {} /\ Of(q, "put", d) # {}
ByRR(q, d)   == Of(q, "rr", d) # {} /\ Of(q, "bf", d) # {}

QuotesValid(q) ==
  /\ Cardinality(Atms(q)) = 1
  /\ DeltaQuotes(q) # {}
  /\ \A i \in DeltaQuotes(q) : RLt(0, q[i][2]) /\ RLt(q[i][2], "0.5")
  /\ \A i \in DeltaQuotes(q) : Direct(q, q[i][2]) \/ ByRR(q, q[i][2])

AtmVol(q) == q[CHOOSE i \in Atms(q) : TRUE][2]

\* One representative of each delta, ascending
Deltas(q) ==
  LET firsts == {i \in DeltaQuotes(q) :
                   \A j \in DeltaQuotes(q) : j < i => ~SameDelta(q[i][2], q[j][2])}
  IN SortSeq([k \in 1..Cardinality(firsts) |-> q[SetToSeq(firsts)[k]][2]],
             LAMBDA a, b : RLt(a, b))

CallVol(q, d) == IF Direct(q, d) THEN VolOf(q, "call", d)
  ELSE RAdd(RAdd(AtmVol(q), VolOf(q, "bf", d)), RMul("0.5", VolOf(q, "rr", d)))
PutVol(q, d) == IF Direct(q, d) THEN VolOf(q, "put", d)
  ELSE RSub(RAdd(AtmVol(q), VolOf(q, "bf", d)), RMul("0.5", VolOf(q, "rr", d)))

\* The strike whose call has forward delta N(d1)
StrikeOf(f, sigma, t, d1) ==
  RMul(f, RExp(RSub(RMul("0.5", RMul(RMul(sigma, sigma), t)),
                    RMul(d1, RMul(sigma, RSqrt(t))))))

\* <<strike, vol>>: puts from the far wing in, at the money, calls out
Points(p, t) ==
  LET q == p.q
      d == Deltas(q)
      n == Len(d)
  IN [i \in 1..(2 * n + 1) |->
        IF i <= n THEN LET v == PutVol(q, d[i]) IN
                       << StrikeOf(p.f, v, t, RNormInv(RSub(1, d[i]))), v >>
        ELSE IF i = n + 1 THEN << StrikeOf(p.f, AtmVol(q), t, 0), AtmVol(q) >>
        ELSE LET e == d[2 * n + 2 - i]
                 v == CallVol(q, e) IN
             << StrikeOf(p.f, v, t, RNormInv(e)), v >>]

PillarValid(s, p) ==
  /\ p.e > s
  /\ RLt(0, p.f)
  /\ QuotesValid(p.q)
  /\ LET k == Points(p, Years365(s, p.e)) IN
     \A i \in 1..(Len(k) - 1) : RLt(k[i][1], k[i + 1][1])

\* Moneyness as a probability, on 1.5 times the volatility at the money
Prob(p, t, k) ==
  RNormCdf(RDiv(RLn(RDiv(p.f, k)), RMul(RMul("1.5", AtmVol(p.q)), RSqrt(t))))

\* A smile: its points, and their probabilities and log-moneynesses
Smile(s, p) ==
  LET t == Years365(s, p.e)
      pt == Points(p, t)
  IN [p |-> p, t |-> t, pt |-> pt, n |-> Len(pt), mid |-> (Len(pt) + 1) \div 2,
      x |-> [i \in 1..Len(pt) |-> Prob(p, t, pt[i][1])],
      m |-> [i \in 1..Len(pt) |-> RLn(RDiv(pt[i][1], p.f))]]

\* The quadratic in that probability through the ends and the middle
Quadratic(sm, x) ==
  LET a == <<1, sm.mid, sm.n>>
      L(i, j, k) == RDiv(RMul(RSub(x, sm.x[a[j]]), RSub(x, sm.x[a[k]])),
                         RMul(RSub(sm.x[a[i]], sm.x[a[j]]), RSub(sm.x[a[i]], sm.x[a[k]])))
  IN RDot(<<sm.pt[a[1]][2], sm.pt[a[2]][2], sm.pt[a[3]][2]>>,
          <<L(1, 2, 3), L(2, 1, 3), L(3, 1, 2)>>)

\* What the quadratic misses at each quote
Residual(sm, i) ==
  IF i \in {1, sm.mid, sm.n} THEN 0 ELSE RSub(sm.pt[i][2], Quadratic(sm, sm.x[i]))

\* is added back, linearly in log-moneyness, between the quoted strikes
SmileVol(sm, k) ==
  LET q == Quadratic(sm, Prob(sm.p, sm.t, k))
      m == RLn(RDiv(k, sm.p.f))
  IN IF RLe(m, sm.m[1]) \/ RLe(sm.m[sm.n], m) THEN q
     ELSE LET i == CHOOSE j \in 2..sm.n : RLe(sm.m[j-1], m) /\ RLt(m, sm.m[j])
              w == RDiv(RSub(m, sm.m[i-1]), RSub(sm.m[i], sm.m[i-1]))
          IN RAdd(q, RAdd(RMul(RSub(1, w), Residual(sm, i - 1)), RMul(w, Residual(sm, i))))

\* Total variance is linear in time between expiries; the volatility is
\* kept before the first and beyond the last
SurfaceVol(s, smiles, e, k) ==
  LET after  == {i \in DOMAIN smiles : smiles[i].p.e >= e}
      before == {i \in DOMAIN smiles : smiles[i].p.e <= e}
      first(S) == CHOOSE i \in S : \A j \in S : smiles[i].p.e <= smiles[j].p.e
      last(S)  == CHOOSE i \in S : \A j \in S : smiles[i].p.e >= smiles[j].p.e
      v(i) == SmileVol(smiles[i], k)
  IN IF RLe(k, 0) \/ e <= s THEN "error"
     ELSE IF before = {} THEN v(first(after))
     ELSE IF after = {} THEN v(last(before))
     ELSE LET a == last(before)  b == first(after) IN
          IF a = b THEN v(a)
          ELSE LET ta == smiles[a].t  tb == smiles[b].t  t == Years365(s, e)
                   va == RMul(RMul(v(a), v(a)), ta)
                   vb == RMul(RMul(v(b), v(b)), tb)
                   w == RDiv(RSub(t, ta), RSub(tb, ta))
               IN RSqrt(RDiv(RAdd(va, RMul(w, RSub(vb, va))), t))
=============================================================================
