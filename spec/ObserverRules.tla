------------------------------ MODULE ObserverRules -------------------------
(***************************************************************************)
(* Market data and their observers.  Market data (subjects) hold weak      *)
(* references to the observers attached to them; notifying calls every     *)
(* observer still alive, in the order of attachment, until one fails.  A   *)
(* curve attached to yield data takes the data's quotes over when notified *)
(* by them, and only then; a volatility surface takes nothing over.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Subjects == {"fx", "yield", "cap"}
Probes == 1..3                  \* observers that record their calls
CurveObs == 4                   \* a yield curve
SurfaceObs == 5                 \* a caplet volatility surface
Obs == 1..5
Unset == -1

Start == [subs  |-> [s \in Subjects |-> <<>>],   \* attached observers
          alive |-> Obs,
          fails |-> {},                          \* probes that answer with an error
          ver   |-> [s \in Subjects |-> 0],      \* version of the quotes
          curve |-> Unset]                       \* version the curve was built from

\* Calls the observers in list, one after another
RECURSIVE CallAll(_, _, _, _)
CallAll(st, s, list, calls) ==
  IF list = <<>> THEN [st |-> st, calls |-> calls, ok |-> TRUE]
  ELSE LET o == Head(list) IN
       IF o = CurveObs
       THEN CallAll(IF s = "yield" THEN [st EXCEPT !.curve = st.ver[s]] ELSE st, s, Tail(list), calls)
       ELSE IF o = SurfaceObs THEN CallAll(st, s, Tail(list), calls)
       ELSE IF o \in st.fails
       THEN [st |-> st, calls |-> Append(calls, o), ok |-> FALSE]
       ELSE CallAll(st, s, Tail(list), Append(calls, o))

\* What an action <<kind, subject, observer>> does: the state after it, the
\* calls it made, its result
Quiet(st) == [st |-> st, calls |-> <<>>, ok |-> TRUE]
Do(st, a) ==
  CASE a[1] = "attach" -> Quiet([st EXCEPT !.subs[a[2]] = Append(@, a[3])])
    [] a[1] = "drop"   -> Quiet([st EXCEPT !.alive = @ \ {a[3]}])
    [] a[1] = "edit"   -> Quiet([st EXCEPT !.ver[a[2]] = @ + 1])
    [] a[1] = "fail"   -> Quiet([st EXCEPT !.fails = @ \union {a[3]}])
    [] a[1] = "heal"   -> Quiet([st EXCEPT !.fails = @ \ {a[3]}])
    [] a[1] = "notify" ->
         CallAll(st, a[2], SelectSeq(st.subs[a[2]], LAMBDA o : o \in st.alive), <<>>)

Actions(st) ==
       {<<"attach", s, o>> : s \in Subjects, o \in st.alive}
  \cup {<<"drop", "-", o>> : o \in st.alive}
  \cup {<<"edit", s, 0>> : s \in Subjects}
  \cup {<<"fail", "-", o>> : o \in (Probes \cap st.alive) \ st.fails}
  \cup {<<"heal", "-", o>> : o \in Probes \cap st.alive \cap st.fails}
  \cup {<<"notify", s, 0>> : s \in Subjects}

=============================================================================
