--------------------------------- MODULE Imm --------------------------------
(* IMM dates are third Wednesdays; the main cycle is the quarter ends.     *)
EXTENDS DateMath

MainMonths == {3, 6, 9, 12}
ThirdWednesday(y, m) == NthDow(y, m, 3, Wed)

IsImm(s, main) ==
  LET t == YMD(s) IN
  s = ThirdWednesday(t.y, t.m) /\ (main => t.m \in MainMonths)

\* The IMM date that follows s
NextImm(s, main) ==
  LET k == CHOOSE n \in 1..100 : IsImm(s + n, main) IN s + k

Upper == <<"F", "G", "H", "J", "K", "M", "N", "Q", "U", "V", "X", "Z">>
Lower == <<"f", "g", "h", "j", "k", "m", "n", "q", "u", "v", "x", "z">>
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>

Code(s) ==
  IF IsImm(s, FALSE)
  THEN LET t == YMD(s) IN Upper[t.m] \o Digits[(t.y % 10) + 1]
  ELSE "none"

ValidCode(c, main) ==        \* c: the characters
  /\ Len(c) = 2
  /\ \E m \in 1..12 : /\ c[1] \in {Upper[m], Lower[m]}
                      /\ main => m \in MainMonths
  /\ \E n \in 1..10 : c[2] = Digits[n]

\* The first IMM date on or after ref that a code can stand for
CodeDate(m, digit, ref) ==
  LET y0 == YearOf(ref)
      k == CHOOSE n \in 0..10 : /\ (y0 + n) % 10 = digit
                                /\ ThirdWednesday(y0 + n, m) >= ref
  IN  ThirdWednesday(y0 + k, m)
=============================================================================
