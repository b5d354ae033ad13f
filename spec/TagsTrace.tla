------------------------------ MODULE TagsTrace ------------------------------
(* Accepts the recorded histories of real tag stores A and B. *)
EXTENDS Tags, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
logline == Trace[l]
Obs(o) == [tags |-> {<<t[1], t[2], t[3]>> : t \in SetOf(o.tags)},
           nodes |-> o.nodes, edges |-> o.edges, fin |-> o.fin]
\* a tag that the driver was handed twice must have read back the same both times
NoDup(o) == Cardinality(SetOf(o.tags)) = Len(o.tags)
Step(S, T2) ==
  LET T == st[S]  e == logline IN
  CASE e.op = "id" -> OpId(T, T2, e.k, e.v, e.r)
    [] e.op = "idr" -> OpIdRefused(T, T2)
    [] e.op = "set" -> OpSet(T, T2, e.m, e.n, e.ids)
    [] e.op = "copy" -> OpSet(T, T2, e.m, e.n, e.ids)
    [] e.op = "list" -> OpPairs(T, T2, e.m, e.n, e.pairs)
    [] e.op = "clone" -> LET O == st[e.o] IN OpPairs(T, T2, e.m, e.n, Pairs(O, Map(O, e.m)[e.n]))
    [] e.op = "merge" -> OpMerge(T, T2, e.n, e.other)
    [] e.op = "fin" -> OpFinalize(T, T2)
    [] e.op \in {"grow", "reopen", "child"} -> OpKeep(T, T2)
    [] OTHER -> FALSE

New == /\ l <= Len(Trace) /\ logline.op = "new" /\ l' = l + 1 /\ st' = [S \in {"A", "B"} |-> EmptyStore]
Do == /\ l <= Len(Trace) /\ logline.op # "new" /\ l' = l + 1
      /\ NoDup(logline.obs)
      /\ LET T2 == Obs(logline.obs) IN
         Sound(T2) /\ Step(logline.s, T2) /\ st' = [st EXCEPT ![logline.s] = T2]
Init == l = 1 /\ st = [S \in {"A", "B"} |-> EmptyStore]
Spec == Init /\ [][New \/ Do]_<<l, st>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
