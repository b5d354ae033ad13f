------------------------------- MODULE StoreMC -------------------------------
(* How the stores are written: an operation takes several steps, each may    *)
(* run out of memory; the half-done step is taken back, the file grows (all  *)
(* content stays) and the operation starts over. A crash can happen between  *)
(* operations. The outcome must be exactly the operation, once.              *)
EXTENDS Store, Json
CONSTANTS MaxLen, FailsG, FailsT
VARIABLES g,        \* what is in the files: [nodes, vmap, edges, nt, et]
          stat,     \* static store: [nodes, edges, nt, et, points]
          pc, cur, failG, failT, abs, hist, restarts
vars == <<g, stat, pc, cur, failG, failT, abs, hist, restarts>>
Ids == 1..2
TagSets == {<<>>, <<1>>, <<1, 2>>}
Empty == [nodes |-> <<>>, vmap |-> <<>>, edges |-> <<>>, nt |-> <<>>, et |-> <<>>]
NoStatic == [nodes |-> <<>>, edges |-> <<>>, nt |-> <<>>, et |-> <<>>, done |-> FALSE]
Init == /\ g = Empty /\ stat = NoStatic /\ pc = "idle" /\ cur = <<>> /\ failG = 0 /\ failT = 0 /\ abs = EmptyGraph /\ hist = <<>> /\ restarts = 0
Begin(c) == /\ pc = "idle" /\ Len(hist) < MaxLen /\ cur' = c /\ hist' = Append(hist, c) /\ pc' = "tags"
            /\ failG' = FailsG /\ failT' = FailsT /\ UNCHANGED <<g, stat, abs, restarts>>
Node == \E t \in TagSets : Begin(<<"node", Len(g.nodes) + 1, t>>)
Edge == \E i \in Ids, s, t \in 1..Len(g.nodes), ts \in TagSets : Begin(<<"edge", i, s, t, ts>>)
Static == ~stat.done /\ Begin(<<"static">>) 
\* the tag file is full: it grows on its own, without starting over
FailTags == /\ pc = "tags" /\ failT > 0 /\ failT' = failT - 1 /\ UNCHANGED <<g, stat, pc, cur, failG, abs, hist, restarts>>
FailGraph == /\ pc \in {"tags", "vertex", "map", "link"} /\ cur[1] # "static" /\ failG > 0 /\ failG' = failG - 1 /\ pc' = "tags"
             /\ restarts' = restarts + 1
             /\ g' = IF pc = "map" THEN [g EXCEPT !.nodes = SubSeq(@, 1, Len(@) - 1)] ELSE g     \* take back the node
             /\ UNCHANGED <<stat, cur, failT, abs, hist>>
Tags == /\ pc = "tags" /\ cur[1] # "static"
        /\ g' = IF cur[1] = "node" THEN [g EXCEPT !.nt = PutTags(@, cur[2], cur[3])] ELSE [g EXCEPT !.et = PutTags(@, cur[2], cur[5])]
        /\ pc' = IF cur[1] = "node" THEN "vertex" ELSE "link"
        /\ UNCHANGED <<stat, cur, failG, failT, abs, hist, restarts>>
Vertex == /\ pc = "vertex" /\ g' = [g EXCEPT !.nodes = Append(@, <<cur[2], 0, 0>>)] /\ pc' = "map"
          /\ UNCHANGED <<stat, cur, failG, failT, abs, hist, restarts>>
MapIt == /\ pc = "map" /\ g' = [g EXCEPT !.vmap = Append(@, Len(g.nodes))] /\ pc' = "idle" /\ abs' = AddNode(abs, cur[2], 0, 0, cur[3])
         /\ UNCHANGED <<stat, cur, failG, failT, hist, restarts>>
Link == /\ pc = "link" /\ g' = [g EXCEPT !.edges = Append(@, <<cur[2], g.vmap[cur[3]], g.vmap[cur[4]], <<>>>>)] /\ pc' = "idle"
        /\ abs' = AddEdge(abs, cur[2], cur[3], cur[4], <<>>, cur[5])
        /\ UNCHANGED <<stat, cur, failG, failT, hist, restarts>>
\* the static store: nodes, then edges; without memory everything is dropped and made again in a larger file (tags stay)
StaticNodes == /\ pc = "tags" /\ cur[1] = "static"
               /\ stat' = [stat EXCEPT !.nodes = g.nodes, !.nt = g.nt]
               /\ pc' = "sedges" /\ UNCHANGED <<g, cur, failG, failT, abs, hist, restarts>>
StaticEdges == /\ pc = "sedges"
               /\ stat' = [stat EXCEPT !.edges = StaticOf([nodes |-> g.nodes, edges |-> g.edges, nt |-> <<>>, et |-> <<>>]).edges, !.et = g.et, !.done = TRUE]
               /\ pc' = "idle" /\ UNCHANGED <<g, cur, failG, failT, abs, hist, restarts>>
FailStatic == /\ pc = "sedges" /\ failG > 0 /\ failG' = failG - 1 /\ pc' = "tags" /\ restarts' = restarts + 1
              /\ stat' = [NoStatic EXCEPT !.nt = stat.nt, !.et = stat.et]
              /\ UNCHANGED <<g, cur, failT, abs, hist>>
Next == Node \/ Edge \/ Static \/ FailTags \/ FailGraph \/ Tags \/ Vertex \/ MapIt \/ Link \/ StaticNodes \/ StaticEdges \/ FailStatic
Spec == Init /\ [][Next]_vars

Content(x) == [nodes |-> x.nodes, edges |-> x.edges, nt |-> x.nt, et |-> x.et]
Refines == pc = "idle" => Seen(Content(g)) = Seen(abs) /\ g.vmap = [i \in 1..Len(g.nodes) |-> i]
\* the static network shows what the import network showed when it was made
StaticRefines == (pc = "idle" /\ cur # <<>> /\ cur[1] = "static") => Seen(Content(stat)) = Seen(StaticOf(abs))
View == <<g, stat, pc, cur, failG, failT, abs, Len(hist)>>
Emit == (pc' = "idle" /\ pc # "idle") => PrintT("@@" \o ToJson(hist'))
=============================================================================
