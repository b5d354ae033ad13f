------------------------------ MODULE Export ------------------------------
(* Preparing a network from OpenStreetMap data and exporting it again (C19): positions are carried into the requested reference
   system, the processing asked for is done, and the exported files describe the network that was prepared.
   Positions are <<i, j>> of a world (SrsTable); o = [w, code, type, simplify, rc, rdn, rde] are the options. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SrsTable
O == INSTANCE Osm
W == INSTANCE Network
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Turned(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
\* ---- reference systems
SystemOf(o) == IF o.code = 3857 \/ (o.code = -1 /\ o.type = "cartesian") THEN "merc" ELSE IF o.code = 25832 THEN "utm" ELSE "deg"
Near(p, q) == p[1] - q[1] \in -1..1 /\ p[2] - q[2] \in -1..1
At(w, sys, p) == LET c == {x \in (0..7) \X (0..7) : Near(Place[w][sys][x[1] + 1][x[2] + 1], p)} IN
                 IF Cardinality(c) = 1 THEN CHOOSE x \in c : TRUE ELSE <<-1, -1>>
Known(w, sys, p) == At(w, sys, p) # <<-1, -1>>
\* ---- the network that has been read
ReadNet(items) ==
  LET n == TLCEval(O!Network(O!Read(O!Car, O!Empty, items, 1)))
      ids == {v.id : v \in RangeOf(n.verts)}
      v(id) == CHOOSE x \in RangeOf(n.verts) : x.id = id IN
  [nodes |-> TLCEval([id \in ids |-> [x |-> v(id).p[1], y |-> v(id).p[2], tags |-> v(id).tags]]),
   edges |-> TLCEval([i \in 1..Len(n.edges) |-> LET e == n.edges[i] IN [id |-> e.id, s |-> e.s, t |-> e.t, pts |-> e.ls, tags |-> e.tags]])]
\* ---- the network in the exported CSV files; nothing if it makes no sense
NoNet == [nodes |-> <<>>, edges |-> <<>>, sense |-> FALSE]
CsvNet(w, sys, csv) ==
  LET ids == {n.id : n \in RangeOf(csv.ns)}
      ns == TLCEval([i \in 1..Len(csv.ns) |-> [id |-> csv.ns[i].id, p |-> At(w, sys, csv.ns[i].p), tags |-> csv.ns[i].tags]])
      es == TLCEval([i \in 1..Len(csv.es) |-> [id |-> csv.es[i].id, tags |-> csv.es[i].tags,
                                               pts |-> TLCEval([k \in 1..Len(csv.es[i].ls) |-> At(w, sys, csv.es[i].ls[k])])]])
      ps == {ns[i].p : i \in 1..Len(ns)}
      who(p) == ns[CHOOSE i \in 1..Len(ns) : ns[i].p = p].id
      n(id) == ns[CHOOSE i \in 1..Len(ns) : ns[i].id = id] IN
  IF /\ Cardinality(ids) = Len(ns) /\ Cardinality(ps) = Len(ns) /\ <<-1, -1>> \notin ps
     /\ \A i \in 1..Len(es) : LET p == es[i].pts IN Len(p) >= 2 /\ <<-1, -1>> \notin RangeOf(p) /\ p[1] \in ps /\ p[Len(p)] \in ps
  THEN [sense |-> TRUE, nodes |-> TLCEval([id \in ids |-> [x |-> n(id).p[1], y |-> n(id).p[2], tags |-> n(id).tags]]),
        edges |-> TLCEval([i \in 1..Len(es) |-> [id |-> es[i].id, s |-> who(es[i].pts[1]), t |-> who(es[i].pts[Len(es[i].pts)]), pts |-> es[i].pts, tags |-> es[i].tags]])]
  ELSE NoNet
\* ---- the processing asked for
Segs(N) == UNION {{<<e.pts[i], e.pts[i + 1]>> : i \in 1..(Len(e.pts) - 1)} : e \in RangeOf(N.edges)}
Alone(o) == (IF o.simplify # "none" THEN 1 ELSE 0) + (IF o.rc THEN 1 ELSE 0) + (IF o.rde THEN 1 ELSE 0) <= 1
Processed(o, N, M) ==
  IF Alone(o)
  THEN IF o.simplify # "none" THEN W!SimplifyRel(N, M, o.simplify = "all")
       ELSE IF o.rc THEN W!LargestRel(N, M)
       ELSE IF o.rde THEN W!DupEdgesRel(N, M)
       ELSE M.nodes = N.nodes /\ W!BagEq(M.edges, N.edges)
  ELSE /\ DOMAIN M.nodes \subseteq DOMAIN N.nodes /\ \A v \in DOMAIN M.nodes : M.nodes[v] = N.nodes[v]
       /\ Segs(M) \subseteq Segs(N)
       /\ IF o.rc THEN Cardinality(W!Components(M)) <= 1 ELSE Segs(M) = Segs(N)
       /\ o.rde => \A i, j \in 1..Len(M.edges) : M.edges[i] = M.edges[j] => i = j
\* ---- what OpenStreetMap data say; two ways of looking at a road
Other(tags) == {t \in RangeOf(tags) : t[1] # "oneway"}
OneWay(tags) == \E t \in RangeOf(tags) : t = <<"oneway", "yes">>
Roads(N) == {<<e.pts, Other(e.tags)>> : e \in RangeOf(N.edges)}
RoadsOf(line, tags) == {<<line, Other(tags)>>} \cup (IF OneWay(tags) THEN {} ELSE {<<Turned(line), Other(tags)>>})
Pieces(rs) == UNION {{<<r[1][i], r[1][i + 1], r[2]>> : i \in 1..(Len(r[1]) - 1)} : r \in rs}
\* a file of nodes [id, p, tags] and ways [id, refs, tags], positions of the world, describes network M
Describes(ns, ws, M) ==
  LET ids == {n.id : n \in RangeOf(ns)}
      pos == TLCEval([i \in ids |-> (CHOOSE n \in RangeOf(ns) : n.id = i).p])
      verts == {<<v.x, v.y>> : v \in {M.nodes[id] : id \in DOMAIN M.nodes}}
      used == verts \cup UNION {RangeOf(e.pts) : e \in RangeOf(M.edges)} IN
  /\ Cardinality(ids) = Len(ns) /\ Cardinality({w.id : w \in RangeOf(ws)}) = Len(ws)
  /\ \A w \in RangeOf(ws) : RangeOf(w.refs) \subseteq ids /\ Cardinality({i \in 1..Len(w.tags) : w.tags[i][1] = "oneway"}) <= 1
  /\ {pos[i] : i \in ids} = used /\ Cardinality(ids) = Cardinality(used)
  /\ \A n \in RangeOf(ns) : LET vs == {v \in DOMAIN M.nodes : <<M.nodes[v].x, M.nodes[v].y>> = n.p} IN
       IF vs = {} THEN n.tags = <<>> ELSE \E v \in vs : RangeOf(n.tags) = RangeOf(M.nodes[v].tags)
  /\ UNION {RoadsOf(TLCEval([i \in 1..Len(w.refs) |-> pos[w.refs[i]]]), w.tags) : w \in RangeOf(ws)} = Roads(M)
\* ---- a run of the program
Files == {"graph.bin", "tags.bin", "index.bin", "nodes.csv", "edges.csv", "net.osm"}
Prepared(e) ==
  LET o == e.world
      N == TLCEval(ReadNet(e.items))
      M == TLCEval(CsvNet(o.w, SystemOf(o), e.csv))
      ns == TLCEval([i \in 1..Len(e.osm.ns) |-> [id |-> e.osm.ns[i].id, p |-> At(o.w, "deg", e.osm.ns[i].p), tags |-> e.osm.ns[i].tags]])
      A == TLCEval(CsvNet(o.w, "deg", e.again))
      fits == \A w \in RangeOf(e.osm.ws) : OneWay(w.tags) \/ ~O!Oneway(O!Car, w) IN
  /\ e.failed = "" /\ RangeOf(e.files) = Files
  /\ M.sense /\ Processed(o, N, M)
  /\ e.osm.good /\ Describes(ns, e.osm.ws, M)
  \* reading the exported file gives these roads again
  /\ e.failed2 = "" /\ A.sense
  /\ fits => Pieces(Roads(A)) = Pieces(Roads(M))
==============================================================================
