----------------------------- MODULE ExportMC -----------------------------
(* Small networks read from OpenStreetMap data, written as ways one after the other: a road in both directions is one way, a road in
   one direction is a way with oneway=yes. Careful = FALSE is the writer that does not look at tags. *)
EXTENDS Export, Json
CONSTANTS Problems, Careful
VARIABLES items, N, i, turned, ways
vars == <<items, N, i, turned, ways>>
Tags == {<<<<"highway", "primary">>>>, <<<<"highway", "primary">>, <<"name", "1">>>>, <<<<"highway", "primary">>, <<"oneway", "yes">>>>,
         <<<<"oneway", "-1">>, <<"highway", "primary">>>>, <<<<"highway", "primary">>, <<"oneway", "true">>>>, <<<<"highway", "motorway">>>>,
         <<<<"name", "1">>, <<"highway", "primary">>, <<"oneway", "no">>>>, <<<<"junction", "roundabout">>, <<"highway", "primary">>>>,
         <<<<"name", "1">>, <<"highway", "primary">>, <<"oneway", "yes">>>>}
Refs == UNION {[1..n -> 1..3] : n \in 1..3} \cup {<<1, 2, 1, 3>>, <<3, 2, 1, 2>>}
Node(k) == [k |-> "n", id |-> k, vis |-> TRUE, p |-> <<k, 2 * k>>, tags |-> RandomElement({<<>>, <<<<"name", "1">>>>}), refs |-> <<>>]
Way(k) == [k |-> "w", id |-> 10 + k, vis |-> TRUE, p |-> <<0, 0>>, tags |-> RandomElement(Tags), refs |-> RandomElement(Refs)]
Gen(k) == [j \in 1..(4 + (k % 3)) |-> IF j <= 3 THEN Node(j) ELSE Way(j)]
Init == \E k \in 1..Problems : \E g \in {Gen(k)} : items = g /\ N = ReadNet(g) /\ i = 1 /\ turned = {} /\ ways = <<>>
Edges == 1..Len(N.edges)
Back(j) == {k \in Edges : N.edges[k].pts = Turned(N.edges[j].pts) /\ (Careful => Other(N.edges[k].tags) = Other(N.edges[j].tags))}
Direction(tags, one) == SelectSeq(tags, LAMBDA t : t[1] # "oneway" \/ (~one /\ t[2] = "no")) \o (IF one THEN <<<<"oneway", "yes">>>> ELSE <<>>)
Done == i > Len(N.edges)
Say(x) == IF i' > Len(N.edges) THEN PrintT("@@" \o ToJson([items |-> items])) ELSE TRUE
Skip == ~Done /\ i \in turned /\ i' = i + 1 /\ UNCHANGED <<items, N, turned, ways>> /\ Say(0)
Write == /\ ~Done /\ i \notin turned /\ i' = i + 1
         /\ turned' = turned \cup Back(i)
         /\ ways' = Append(ways, [line |-> N.edges[i].pts, tags |-> Direction(N.edges[i].tags, Back(i) = {})])
         /\ UNCHANGED <<items, N>> /\ Say(0)
Next == Skip \/ Write
Spec == Init /\ [][Next]_vars
Written == UNION {RoadsOf(ways[j].line, ways[j].tags) : j \in 1..Len(ways)}
\* nothing is written that is not there, and in the end everything is there
Sound == Written \subseteq Roads(N)
Complete == Done => Roads(N) \subseteq Written
OneDirection == \A j \in 1..Len(ways) : Cardinality({k \in 1..Len(ways[j].tags) : ways[j].tags[k][1] = "oneway"}) <= 1
\* the written ways, read again, are these roads
ItemsOf == [j \in 1..3 |-> Node(j)] \o [j \in 1..Len(ways) |-> [k |-> "w", id |-> j, vis |-> TRUE, p |-> <<0, 0>>, tags |-> ways[j].tags,
                                                                refs |-> [k \in 1..Len(ways[j].line) |-> ways[j].line[k][1]]]]
Again == (Done /\ \A j \in 1..Len(ways) : OneWay(ways[j].tags) \/ ~O!Oneway(O!Car, ways[j])) => Pieces(Roads(ReadNet(ItemsOf))) = Pieces(Roads(N))
==============================================================================
