--------------------------- MODULE BusinessDayLaws --------------------------
(***************************************************************************)
(* Laws of rolling, advancing and counting, on every calendar that differs *)
(* from open every day in a window across a month end, or across the 15th. *)
(***************************************************************************)
EXTENDS BusinessDays, TLC

CONSTANT Width
VARIABLES base, closed, judged         \* the window's first day; which of its days are closed
vars == <<base, closed, judged>>

\* across the ends of February (in and out of leap years) and April, a year's end, and the 15th
Bases == {Serial(2024, 2, 29) - (Width \div 2), Serial(2023, 2, 28) - (Width \div 2) + 1,
          Serial(2023, 4, 30) - (Width \div 2), Serial(2023, 12, 31) - (Width \div 2),
          Serial(2023, 6, 15) - (Width \div 2)}
Init == base \in Bases /\ closed \in SUBSET (0..(Width - 1)) /\ judged = FALSE
Next == ~judged /\ judged' = TRUE /\ UNCHANGED <<base, closed>>
Spec == Init /\ [][Next]_vars

B(s) == (s - base) \notin closed
Here == (base - 1)..(base + Width)

Rolled ==
  \A s \in Here :
    LET a == [c \in Conventions |-> Adjust(B, s, c)] IN
    /\ \A c \in Conventions \ {"U"} :
         /\ B(a[c])                               \* lands on a business day
         /\ B(s) => a[c] = s                      \* which does not move
         /\ Adjust(B, a[c], c) = a[c]
         /\ \A t \in (s + 1)..(a[c] - 1) : ~B(t) \* and passes none
         /\ \A t \in (a[c] + 1)..(s - 1) : ~B(t)
    /\ a["U"] = s /\ a["P"] <= s /\ s <= a["F"]
    /\ \A c \in Conventions \ {"U"} : a[c] \in {a["F"], a["P"]}
    /\ a["MF"] # a["F"] => ~SameMonth(a["F"], s)
    /\ a["MP"] # a["P"] => ~SameMonth(a["P"], s)
    \* a month is left only when it has no business day
    /\ ~SameMonth(a["MF"], s) => \A t \in FirstOfMonth(s)..LastOfMonth(s) : ~B(t) \/ t > s
    /\ SameMonth(a["HMF"], s) => (a["HMF"] = a["MF"] \/ a["HMF"] = a["P"])
    /\ \A t \in Here : B(t) => AbsI(a["N"] - s) <= AbsI(t - s)
    /\ s + 1 \in Here => /\ a["F"] <= Adjust(B, s + 1, "F")   \* order is kept
                         /\ a["P"] <= Adjust(B, s + 1, "P")
                         /\ a["N"] <= Adjust(B, s + 1, "N")

Counted ==
  \A s \in Here, t \in Here :
    LET c(f, l) == BusinessDaysBetween(B, s, t, f, l)
        one(x) == IF B(x) THEN 1 ELSE 0 IN
    /\ s < t => /\ c(TRUE, TRUE) = c(FALSE, FALSE) + one(s) + one(t)
                /\ c(TRUE, FALSE) + one(t) = c(TRUE, TRUE)
                /\ c(FALSE, TRUE) + one(s) = c(TRUE, TRUE)
                /\ \A u \in (s + 1)..(t - 1) :
                     c(TRUE, FALSE) = BusinessDaysBetween(B, s, u, TRUE, FALSE)
                                        + BusinessDaysBetween(B, u, t, TRUE, FALSE)
    /\ s # t => c(TRUE, FALSE) = -BusinessDaysBetween(B, t, s, TRUE, FALSE)

Stepped ==
  \A s \in Here, n \in -3..3 :
    LET t == Advance(B, s, <<"D", n>>, "F", FALSE) IN
    /\ B(t)
    /\ (B(s) /\ n >= 0) => BusinessDaysBetween(B, s, t, TRUE, FALSE) = n
    /\ (B(s) /\ n < 0) => BusinessDaysBetween(B, s, t, FALSE, TRUE) = n
    /\ B(s) => Advance(B, t, <<"D", -n>>, "F", FALSE) = s
    /\ n > 0 => t = Advance(B, Advance(B, s, <<"D", n - 1>>, "P", FALSE), <<"D", 1>>, "F", FALSE)
                  \/ n = 1 \/ ~B(s)

Ended ==
  \A s \in Here, c \in Conventions, n \in {-1, 0, 12} :
    LET p == <<"M", n>>
        on == Advance(B, s, p, c, TRUE)
        off == Advance(B, s, p, c, FALSE)
        end == LastBusinessDayOfMonth(B, s) IN
    /\ c # "U" => B(on) /\ B(off)
    /\ (c # "U" /\ s >= end) => on = LastBusinessDayOfMonth(B, Plus(s, p))
    /\ (c # "U" /\ s < end) => on = off
    /\ (c = "U" /\ s = LastOfMonth(s)) => on = LastOfMonth(on)
    /\ (n = 0 /\ s < end) => off = Adjust(B, s, c)
    /\ Advance(B, s, <<"Y", 1>>, c, TRUE) = Advance(B, s, <<"M", 12>>, c, TRUE)
    /\ Advance(B, s, <<"W", 1>>, c, TRUE) = Adjust(B, s + 7, c)

Lawful == judged => Rolled /\ Counted /\ Stepped /\ Ended
=============================================================================
