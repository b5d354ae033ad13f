---------------------------- MODULE FilesTrace ----------------------------
(* Accepts recorded histories of real memory-mapped files. *)
EXTENDS Files, Json, IOUtils, TLC
VARIABLES l, S
vars == <<l, S>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Shows == e.vals = S'.hv
Step ==
  CASE e.op = "begin" -> S' = Closed
    [] e.op = "open" -> /\ S' = Open(S, e.mode) /\ e.res = Answer(S, "own", e.mode) /\ Shows
                        /\ (e.mode \in {"ro", "cow"} \/ e.res # "ok") => e.same
    [] e.op = "put" -> S' = Put(S, e.v) /\ Shows /\ (S.h = "cow" => e.same)
    [] e.op = "get" -> S' = S /\ Shows /\ e.same
    [] e.op = "full" -> S' = S /\ Shows /\ e.same       \* a private copy does not grow
    [] e.op = "grow" -> S' = S /\ Shows
    [] e.op = "dropgrow" -> S' = DropGrow(S) /\ Shows
    [] e.op = "shrink" -> S' = (IF e.reopen THEN S ELSE Close(S)) /\ Shows
    [] e.op = "close" -> S' = Close(S) /\ e.same
    [] e.op = "crash" -> S' = Close(S) /\ e.same
    [] e.op = "destroy" -> S' = Destroy(S) /\ ~e.exists
    [] e.op = "plain" -> S' = Plain(S)
    [] e.op = "other" -> /\ S' = Other(S, e.what, e.mode) /\ e.res = Answer(S, e.what, e.mode)
                         /\ (e.mode \in {"ro", "cow"} \/ e.res # "ok") => e.same
    [] OTHER -> FALSE
Init == l = 1 /\ S = Closed
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
