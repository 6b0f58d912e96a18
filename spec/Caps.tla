-------------------------------- MODULE Caps --------------------------------
(***************************************************************************)
(* Caps and floors on normal volatilities, and the caplet surface: pillars *)
(* <<expiry, << <<strike, vol>>, ... >> >>, sorted by expiry and strike.   *)
(***************************************************************************)
EXTENDS Swaps, Options

\* Linear in strike, flat beyond the quoted strikes
VolAtStrike(nodes, k) ==
  LET n == Len(nodes) IN
  IF RLe(k, nodes[1][1]) THEN nodes[1][2]
  ELSE IF RLe(nodes[n][1], k) THEN nodes[n][2]
  ELSE LET i == CHOOSE j \in 2..n : RLe(nodes[j-1][1], k) /\ RLt(k, nodes[j][1])
           w == RDiv(RSub(k, nodes[i-1][1]), RSub(nodes[i][1], nodes[i-1][1]))
       IN RAdd(nodes[i-1][2], RMul(w, RSub(nodes[i][2], nodes[i-1][2])))

\* Flat up to each expiry, and beyond the last
CapletVol(surf, e, k) ==
  IF Len(surf) = 0 THEN "error"
  ELSE LET later == {i \in 1..Len(surf) : e <= surf[i][1]}
           i == IF later = {} THEN Len(surf)
                ELSE CHOOSE j \in later : \A m \in later : j <= m
       IN VolAtStrike(surf[i][2], k)

\* Variance up to the fixing: the accrual's start, or its end with the
\* volatility decaying linearly over the accrual
VarianceOver(style, sigma, ys, ye) ==
  LET v2 == RMul(sigma, sigma)
      len == RSub(ye, ys)
  IN IF RLe(ye, 0) THEN "0"
     ELSE IF style = "forward" THEN RMul(v2, RMax(0, ys))
     ELSE IF RLe(0, ys) THEN RMul(v2, RAdd(ys, RDiv(len, 3)))
     ELSE RMul(v2, RDiv(RMul(ye, RMul(ye, ye)), RMul(3, RMul(len, len))))
CapletVariance(style, sigma, s, row) ==
  VarianceOver(style, sigma, Years365(s, row[1]), Years365(s, row[2]))

\* Undirected value per unit of notional of one caplet or floorlet
Caplet(pil, s, kind, style, dc, strike, row, sigma, bp) ==
  LET tau == Tau(dc, row)
      f == RDiv(RSub(RDiv(ShiftedDiscount(pil, s, row[1], bp),
                          ShiftedDiscount(pil, s, row[2], bp)), 1), tau)
  IN RMul(RMul(tau, ShiftedDiscount(pil, s, row[3], bp)),
          Bachelier(kind, f, strike, CapletVariance(style, sigma, s, row)))

CapValue(r, bp, vbp) ==
  RMul(RMul(r.dir, r.notional),
       RSum([i \in 1..Len(r.rows) |->
               Caplet(r.pil, r.s, r.kind, r.style, r.dc, r.strike, r.rows[i],
                      RAdd(CapletVol(r.surf, r.rows[i][1], r.strike), RMul(vbp, "1e-4")),
                      bp)]))
=============================================================================
