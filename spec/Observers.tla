------------------------------ MODULE Observers -----------------------------
(* The histories of market data and their observers: their laws, checked   *)
(* on all small ones, and the histories that the real code replays.        *)
EXTENDS ObserverRules, TLC, Json

VARIABLES st, hist, last
vars == <<st, hist, last>>
CONSTANTS Depth, MaxAttached

Init == st = Start /\ hist = <<>> /\ last = Quiet(Start)

Step(a) == LET r == Do(st, a) IN
           /\ st' = r.st
           /\ last' = r
           /\ hist' = Append(hist, a)

Next == \/ Len(hist) < Depth /\ \E a \in Actions(st) : Step(a)
        \/ /\ Len(hist) = Depth
           /\ PrintT("BEHAVIOUR|" \o ToJson(hist))
           /\ hist' = Append(hist, <<"end", "-", 0>>)
           /\ UNCHANGED <<st, last>>
Generate == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Small histories, all of them: one probe fewer, no history kept.         *)
SmallActions(x) ==
  {a \in Actions(x) :
    /\ a[2] # "cap" /\ a[3] \notin {3, SurfaceObs}
    /\ a[1] = "attach" => Len(x.subs[a[2]]) < MaxAttached
    /\ a[1] = "edit" => x.ver[a[2]] < 2}
NextSmall == \E a \in SmallActions(st) :
               LET r == Do(st, a) IN
               st' = r.st /\ last' = [calls |-> r.calls, ok |-> r.ok, act |-> a] /\ hist' = <<>>
InitSmall == st = Start /\ hist = <<>> /\ last = [calls |-> <<>>, ok |-> TRUE, act |-> <<"none", "-", 0>>]
Small == InitSmall /\ [][NextSmall]_vars

\* The dead are not called, nor anyone not attached, and no one out of turn
CallsSound == [][
  last'.act[1] = "notify" =>
    LET s == last'.act[2]
        list == SelectSeq(st.subs[s], LAMBDA o : o \in st.alive /\ o \in Probes) IN
    /\ Len(last'.calls) <= Len(list)
    /\ last'.calls = SubSeq(list, 1, Len(last'.calls))
    /\ last'.ok => last'.calls = list
    /\ ~last'.ok => last'.calls # <<>> /\ last'.calls[Len(last'.calls)] \in st.fails]_vars

\* A curve changes by its own data's notification alone, to their present quotes
CurveFollows == [][
  st'.curve # st.curve =>
    last'.act = <<"notify", "yield", 0>> /\ st'.curve = st.ver["yield"]]_vars

CurveNotAhead == st.curve <= st.ver["yield"]
NoResurrection == [][st'.alive \subseteq st.alive]_vars
=============================================================================
