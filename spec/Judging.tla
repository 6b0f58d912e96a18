------------------------------- MODULE Judging ------------------------------
(* Comparing what the code gave with what the specification requires.      *)
EXTENDS Conform, RealMath

Same(key, got, want) ==
  Report(got = want, key, "the code gave " \o ToString(got) \o ", the rules "
           \o ToString(want))

\* Answers that are not numbers
Word(x) == ToString(x) \in {ToString(w) : w \in {"none", "error", "panic", "expired", "invalid"}}

Near(key, got, want, rel, abs) ==
  Report(IF Word(got) \/ Word(want) THEN ToString(got) = ToString(want) ELSE RClose(got, want, rel, abs),
         key, "the code gave " \o ToString(got) \o ", the rules " \o ToString(want))

SameReal(key, got, want) == Near(key, got, want, "1e-12", "1e-13")
=============================================================================
