---------------------------- MODULE PolicyTrace ----------------------------
(* Accepts the recorded choices of the real learners. *)
EXTENDS Policy, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Viterbi == e.op = "viterbi" /\ HmmRight(e, e.policy, e.slack)
Iteration == e.op \in {"value", "policy"} /\ MdpRight(e.m, e.d, e.policy, e.slack)
\* learning by trial promises a possible sequence only
Learn == e.op = "learn" /\ MdpPossible(e.m, e.d, e.policy)
Begin == e.op = "begin"
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Viterbi \/ Iteration \/ Learn)
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
