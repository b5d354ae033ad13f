---------------------------- MODULE OsmTrace ----------------------------
(* Accepts what was recorded to have been imported. *)
EXTENDS Osm, Json, IOUtils
VARIABLE l
vars == <<l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Cfg == IF e.car THEN Car ELSE e.cfg
Step ==
  CASE e.op = "begin" -> TRUE
    [] e.op = "osm" -> /\ e.failed = ""
                       /\ LET w == TLCEval(Network(Read(Cfg, Empty, e.items, 1))) IN
                          e.got.verts = w.verts /\ SameBag(w.edges, e.got.edges)
    [] e.op = "pattern" -> Unclear(e.words) \/ e.ok = Sentence(e.words)
    [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ (IF Step THEN TRUE ELSE FALSE) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
