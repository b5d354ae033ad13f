---------------------------- MODULE StoreTrace ----------------------------
(* Accepts recorded histories of real memory-mapped stores. *)
EXTENDS Store, Json, IOUtils
VARIABLES l, S
\* S: imp (import graph), open, how, mapped; stat (static graph or "none"), sopen
vars == <<l, S>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
SeesImport(G) == e.obs.nodes = Seen(G).nodes /\ e.obs.edges = Seen(G).edges
SeesStatic(G) == SeesImport(G) /\ IndexOk(G, e.obs.points, e.obs.segments)
Start == [imp |-> EmptyGraph, open |-> FALSE, how |-> "keep", mapped |-> FALSE, stat |-> EmptyGraph, made |-> FALSE, sopen |-> FALSE]

Step ==
  CASE e.op = "new" ->              \* creating a store destroys what was there
         /\ SeesImport(EmptyGraph)
         /\ S' = [S EXCEPT !.imp = EmptyGraph, !.open = TRUE, !.how = e.close, !.mapped = e.mapped]
    [] e.op = "node" -> /\ S' = [S EXCEPT !.imp = AddNode(@, e.id, e.x, e.y, e.tags)] /\ SeesImport(S'.imp)
    [] e.op = "edge" -> /\ S' = [S EXCEPT !.imp = AddEdge(@, e.id, e.s, e.t, e.pts, e.tags)] /\ SeesImport(S'.imp)
    [] e.op = "keep" -> SeesImport(S.imp) /\ UNCHANGED S
    [] e.op = "close" -> /\ S.mapped => IF S.how = "destroy" /\ e.how = "end" THEN e.gone ELSE e.exists
                         /\ S' = [S EXCEPT !.open = FALSE, !.how = IF e.how = "crash" THEN "keep" ELSE @]
    [] e.op = "openI" -> /\ e.ok = (S.mapped /\ ~(S.how = "destroy" /\ ~S.open)) /\ e.same
                         /\ e.ok => SeesImport(S.imp)
                         /\ UNCHANGED S
    [] e.op = "static" -> /\ S' = [S EXCEPT !.stat = StaticOf(S.imp), !.made = TRUE, !.sopen = TRUE] /\ SeesStatic(S'.stat)
    [] e.op = "closeS" -> e.exists /\ e.gone /\ S' = [S EXCEPT !.sopen = FALSE]
    [] e.op = "readS" -> S.made /\ e.same /\ e.rc = 0 /\ SeesStatic(S.stat) /\ UNCHANGED S
    [] e.op = "otherS" -> S.made /\ e.same /\ e.rc = 3 /\ UNCHANGED S     \* refused, not read
    [] OTHER -> FALSE
Init == l = 1 /\ S = Start
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
