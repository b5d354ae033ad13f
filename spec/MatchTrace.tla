----------------------------- MODULE MatchTrace -----------------------------
(* Accepts recorded candidate searches, routes and matches of the real code. *)
EXTENDS Candidates, Json, IOUtils
VARIABLES l, G, cs
P == INSTANCE Policy
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
None == [ns |-> <<>>, es |-> <<>>]
Begin == e.op = "begin" /\ G' = None /\ cs' = <<>>
Net == e.op = "net" /\ G' = [ns |-> e.ns, es |-> e.es] /\ cs' = <<>>
Search == e.op = "search" /\ (IF RightSearch(G, e.ps, e, e.cs) THEN TRUE ELSE FALSE) /\ cs' = e.cs /\ UNCHANGED G
Route == e.op = "route" /\ (IF RightRoute(G, cs, e) THEN TRUE ELSE FALSE) /\ UNCHANGED <<G, cs>>
JoinAll == e.op = "join" /\ (IF RightJoin(G, cs, e) THEN TRUE ELSE FALSE) /\ UNCHANGED <<G, cs>>
\* the whole way: prepare the track, find candidates, set up and solve the decision problem, join the route
RightMatch ==
  /\ e.ps = (IF e.filter THEN NoRep(e.raw) ELSE e.raw)
  /\ RightSearch(G, e.ps, e, e.cs)
  /\ IF e.model = "viterbi" THEN RightHmm(G, e.cs, e) /\ P!HmmRight(e, e.ch, 2 + 2 * Len(e.obs))
     ELSE RightMdp(G, e.cs, e) /\ (LET v == P!FollowIn(e.m, e.d, e.ch, 1, 1, 1) IN v # P!Dead /\ v >= P!ValueIn(e.m, e.d, 1)[1] - 12 - 3 * Len(e.cs))
  /\ RightJoin(G, e.cs, e)
  /\ e.er = e.way
Match == e.op = "match" /\ (IF RightMatch THEN TRUE ELSE FALSE) /\ cs' = e.cs /\ UNCHANGED G
Init == l = 1 /\ G = None /\ cs = <<>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Net \/ Search \/ Route \/ JoinAll \/ Match)
Spec == Init /\ [][Next]_<<l, G, cs>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
