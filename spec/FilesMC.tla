------------------------------ MODULE FilesMC ------------------------------
(* All short histories of one file; every transition is emitted as a script. *)
EXTENDS Files, Json, TLC
CONSTANT MaxLen
VARIABLES st, hist
vars == <<st, hist>>
View == <<st, Len(hist)>>
Modes == {"create", "openc", "ro", "rw", "cow", "fresh"}
Specified(mode) == ~(mode = "openc" /\ st.kind = "plain")       \* adopting a foreign file is not specified
Do(op, nst) == Len(hist) < MaxLen /\ st' = nst /\ hist' = Append(hist, op)
OpenStep == \E m \in Modes : Specified(m) /\ st.h = "none" /\ Do(<<"open", m>>, Open(st, m))
PutStep == st.h \in {"rw", "cow"} /\ Len(st.hv) < 3 /\ Do(<<"put", Len(hist) + 1>>, Put(st, Len(hist) + 1))
GrowStep == st.h = "rw" /\ Do(<<"grow">>, st)
DropStep == st.h = "rw" /\ Do(<<"dropgrow">>, DropGrow(st))
ShrinkStep == \/ st.h = "rw" /\ Do(<<"shrink", 1>>, st)
              \/ st.h = "rw" /\ Do(<<"shrink", 0>>, Close(st))
CloseStep == st.h # "none" /\ (Do(<<"close">>, Close(st)) \/ Do(<<"crash">>, Close(st)))
DestroyStep == st.h = "none" /\ st.kind # "absent" /\ Do(<<"destroy">>, Destroy(st))
PlainStep == st.h = "none" /\ st.kind # "plain" /\ Do(<<"plain">>, Plain(st))
OtherStep == \E m \in Modes, w \in {"version", "compiler"} : st.h = "none" /\ Specified(m) /\ Do(<<"other", w, m>>, Other(st, w, m))
Init == st = Closed /\ hist = <<>>
Next == OpenStep \/ PutStep \/ GrowStep \/ DropStep \/ ShrinkStep \/ CloseStep \/ DestroyStep \/ PlainStep \/ OtherStep
Spec == Init /\ [][Next]_vars
\* content is only ever changed by the build that wrote it or by starting afresh, and never by readers
Guarded == [][(st.kind = "store" /\ st'.vals # st.vals) =>
              \/ st'.vals = <<>> \/ (st.h = "rw" /\ st.by = "own")
              \/ \E w \in {"version", "compiler"} : Head(Tail(hist'[Len(hist')])) = w /\ (st.by = w \/ st'.vals = <<77>>)]_vars
HandleIsFile == st.h \in {"rw", "ro"} => st.hv = st.vals /\ st.kind = "store" /\ st.by = "own"
Emit == PrintT("@@" \o ToJson(hist'))
=============================================================================
