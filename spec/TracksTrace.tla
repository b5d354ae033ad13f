--------------------------- MODULE TracksTrace ---------------------------
(* Accepts what the importers of tracks were recorded to have passed on. *)
EXTENDS Tracks, Json, IOUtils
VARIABLES l, es
vars == <<l, es>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Step ==
  CASE e.op = "begin" -> es' = <<>>
    [] e.op = "enet" -> es' = e.es
    [] e.op = "csv" -> e.failed = "" /\ ((e.cfg.grouped => Grouped(e.cfg, e.rows)) => SameBag(TracksOf(e.cfg, e.rows), e.got)) /\ es' = es
    [] e.op = "input" -> e.failed = "" /\ e.got = InputTracks(e.rows) /\ es' = es
    [] e.op = "gpx" -> e.failed = "" /\ e.got = GpxTracks(e.cfg, e.rows) /\ es' = es
    [] e.op = "edges" -> e.failed = "" /\ EdgesRight(es, e.rows, e.got) /\ es' = es
    [] OTHER -> FALSE
Init == l = 1 /\ es = <<>>
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
