---------------------------- MODULE ExportTrace ----------------------------
(* Accepts recorded runs of the program prepare. *)
EXTENDS Export, Json, IOUtils
VARIABLE l
vars == <<l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Step == CASE e.op = "begin" -> TRUE [] e.op = "prepared" -> Prepared(e) [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ (IF Step THEN TRUE ELSE FALSE) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
