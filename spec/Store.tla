------------------------------- MODULE Store -------------------------------
(* The content of the stores behind a road network: an import graph with its *)
(* tags, and a static graph with its tags and its spatial index, each in a   *)
(* file that can grow, be closed and be opened again.                        *)
(* G = [nodes |-> Seq(<<id, x, y>>), edges |-> Seq(<<id, s, t, pts>>),       *)
(*      nt, et |-> tags by identifier (the first ones given stay)]           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

EmptyGraph == [nodes |-> <<>>, edges |-> <<>>, nt |-> <<>>, et |-> <<>>]
TagsOf(f, id) == IF \E p \in ToSet(f) : p[1] = id THEN (CHOOSE p \in ToSet(f) : p[1] = id)[2] ELSE <<>>
PutTags(f, id, tags) == IF tags = <<>> \/ \E p \in ToSet(f) : p[1] = id THEN f ELSE Append(f, <<id, tags>>)

AddNode(G, id, x, y, tags) == [G EXCEPT !.nodes = Append(@, <<id, x, y>>), !.nt = PutTags(@, id, tags)]
AddEdge(G, id, s, t, pts, tags) == [G EXCEPT !.edges = Append(@, <<id, s, t, pts>>), !.et = PutTags(@, id, tags)]

\* what reading the graph must show: every node and edge with the tags of its identifier
Seen(G) == [nodes |-> [i \in 1..Len(G.nodes) |-> Append(G.nodes[i], TagsOf(G.nt, G.nodes[i][1]))],
            edges |-> [i \in 1..Len(G.edges) |-> Append(G.edges[i], TagsOf(G.et, G.edges[i][1]))]]

\* the static form: same nodes, edges grouped by their source in order of insertion
StaticOf(G) == [G EXCEPT !.edges = FlattenSeq([v \in 1..Len(G.nodes) |-> SelectSeq(G.edges, LAMBDA e : e[2] = v)])]
PointsOf(G) == {<<G.nodes[i][2], G.nodes[i][3], i>> : i \in 1..Len(G.nodes)}
SegmentsOf(G) == UNION {{<<k, i, G.edges[k][4][i][1], G.edges[k][4][i][2], G.edges[k][4][i + 1][1], G.edges[k][4][i + 1][2]>>
                          : i \in 1..(Len(G.edges[k][4]) - 1)} : k \in 1..Len(G.edges)}
IndexOk(G, points, segments) ==
  /\ ToSet(points) = PointsOf(G) /\ Len(points) = Cardinality(PointsOf(G))
  /\ ToSet(segments) = SegmentsOf(G) /\ Len(segments) = Cardinality(SegmentsOf(G))
=============================================================================
