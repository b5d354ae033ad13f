------------------------------ MODULE GraphMC ------------------------------
(* Bounded exploration of Graph; every transition of the state graph is     *)
(* printed as a script (shortest history reaching the state, plus the call).*)
EXTENDS Graph, Json
CONSTANTS MaxV, MaxE, MaxLen, TheKinds
VARIABLE hist

Init == kind \in TheKinds /\ vs = <<>> /\ es = <<>> /\ nv = 0 /\ ne = 0 /\ hist = <<<<"new", kind>>>>
Do(A, c) == A /\ hist' = Append(hist, c)
Next ==
  \/ nv < MaxV /\ Do(AddVertex, <<"av">>)
  \/ \E s, t \in VIds : ne < MaxE /\ Do(AddEdge(s, t), <<"ae", s, t>>)
  \/ \E v \in VIds : Do(RemoveVertex(v), <<"rv", v>>)
  \/ \E v \in VIds : Do(RemoveVertexRefused(v), <<"rv", v>>)
  \/ \E e \in EIds : Do(RemoveEdge(e), <<"re", e>>)
  \/ \E s, t \in VIds : Do(RemoveBetween(s, t), <<"rb", s, t>>)
  \/ \E v \in VIds : Do(ClearVertex(v), <<"cv", v>>)
  \/ ~Indexed /\ Do(Reindex, <<"ri">>)
  \/ Do(Bake, <<"bake">>)
  \/ Do(Copy, <<"cp">>)
  \/ Do(Copy, <<"as">>)
  \/ \E s, t \in VIds, k \in 1..4 : nv = MaxV /\ ne < MaxE /\ Do(FailedAdd, <<"aef", s, t, k>>)
Spec == Init /\ [][Next]_<<gvars, hist>>
View == gvars
Emit == PrintT("@@" \o ToJson(hist'))
Bound == Len(hist) <= MaxLen
=============================================================================
