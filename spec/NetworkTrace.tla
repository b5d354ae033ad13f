---------------------------- MODULE NetworkTrace ----------------------------
(* Recorded preparation steps must be steps the relations of Network allow. *)
EXTENDS Network, Json, IOUtils
VARIABLES net, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<net, l>>
Empty == [nodes |-> <<>>, edges |-> <<>>]
TraceInit == net = Empty /\ l = 1
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1

Ids(o) == {o.nodes[i].id : i \in 1..Len(o.nodes)}
\* the observation as a network; identifiers of nodes are unique in the generated inputs
Norm(o) ==
  [nodes |-> [v \in Ids(o) |-> LET i == CHOOSE i \in 1..Len(o.nodes) : o.nodes[i].id = v IN
                               [x |-> o.nodes[i].x, y |-> o.nodes[i].y, tags |-> o.nodes[i].tags]],
   edges |-> [i \in 1..Len(o.edges) |-> LET e == o.edges[i] IN
                [id |-> e.id, s |-> o.nodes[e.s + 1].id, t |-> o.nodes[e.t + 1].id, pts |-> e.pts, tags |-> e.tags]]]
\* the observation is a well-formed graph and its cached lengths are right
WellFormed(o) ==
  /\ o.nv = Len(o.nodes) /\ o.ne = Len(o.edges) /\ Cardinality(Ids(o)) = Len(o.nodes)
  /\ \A i \in 1..Len(o.nodes) :
       /\ o.nodes[i].ix = i - 1
       /\ o.nodes[i].in = Cardinality({j \in 1..Len(o.edges) : o.edges[j].t = i - 1})
       /\ o.nodes[i].out = Cardinality({j \in 1..Len(o.edges) : o.edges[j].s = i - 1})
  /\ \A i \in 1..Len(o.edges) :
       /\ o.edges[i].ix = i - 1 /\ o.edges[i].s \in 0..(Len(o.nodes) - 1) /\ o.edges[i].t \in 0..(Len(o.nodes) - 1)
       /\ o.edges[i].len \in {-1, PtsLen(o.edges[i].pts)}
Obs == /\ WellFormed(Trace[l].net) /\ net' = Norm(Trace[l].net)

TNet == IsEvent("net") /\ Obs
TSimplify == IsEvent("simplify") /\ Obs /\ SimplifyRel(net, net', Trace[l].complete)
TComp == IsEvent("comp") /\ Obs /\ LargestRel(net, net')
TDupN == IsEvent("dupn") /\ Obs /\ DupNodesRel(net, net', Trace[l].simplify, Trace[l].complete)
TDupE == IsEvent("dupe") /\ Obs /\ DupEdgesRel(net, net')
TraceNext == TNet \/ TSimplify \/ TComp \/ TDupN \/ TDupE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
