---------------------------- MODULE StoredTrace ----------------------------
(* Accepts what was recorded of networks written and read back. *)
EXTENDS Stored, Json, IOUtils
VARIABLE l
vars == <<l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Step == CASE e.op = "begin" -> TRUE [] e.op = "stored" -> Stored1(e) [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ (IF Step THEN TRUE ELSE FALSE) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
