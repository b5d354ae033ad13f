------------------------------ MODULE StoredMC ------------------------------
(* A network is created, filled, indexed, written, closed, opened again and read, its parts being held in memory or mapped. *)
EXTENDS Stored, Json
CONSTANTS Problems, Side
VARIABLES given, kind, phase, held, disk, leaves
vars == <<given, kind, phase, held, disk, leaves>>
Parts == {"graph", "tags", "index"}
Lattice == (0..Side) \X (0..Side)
TagSets == {<<>>, <<<<"a", "1">>>>, <<<<"a", "1">>, <<"b", "2">>>>, <<<<"b", "">>>>}
LineOf(n, a, b) == <<a>> \o [i \in 1..n |-> RandomElement(Lattice)] \o <<b>>
Gen(k) ==
  LET nn == k % 4  ne == IF nn = 0 THEN 0 ELSE (k \div 4) % 4
      ps == TLCEval([i \in 1..nn |-> RandomElement(Lattice)])
      nodes == TLCEval([i \in 1..nn |-> [id |-> RandomElement(1..3), p |-> ps[i], tags |-> <<>>]])
      tg == TLCEval([i \in 1..4 |-> RandomElement(TagSets)])
      raw == TLCEval([i \in 1..ne |-> [id |-> RandomElement(1..3), s |-> RandomElement(1..nn), t |-> RandomElement(1..nn), m |-> RandomElement(0..2)]]) IN
  [ns |-> [i \in 1..nn |-> [nodes[i] EXCEPT !.tags = tg[nodes[i].id]]],
   es |-> [i \in 1..ne |-> [id |-> raw[i].id, s |-> raw[i].s - 1, t |-> raw[i].t - 1, ls |-> LineOf(raw[i].m, ps[raw[i].s], ps[raw[i].t]),
                            tags |-> tg[(raw[i].id % 4) + 1]]]]
\* what the parts hold of a network
GraphOf(g) == [ns |-> [i \in 1..Len(g.ns) |-> [id |-> g.ns[i].id, p |-> g.ns[i].p]], es |-> [i \in 1..Len(g.es) |-> [id |-> g.es[i].id, s |-> g.es[i].s, t |-> g.es[i].t, ls |-> g.es[i].ls]]]
TagsOf(g) == [n |-> {<<x.id, x.tags>> : x \in RangeOf(g.ns)}, e |-> {<<x.id, x.tags>> : x \in RangeOf(g.es)}]
NetOf(gr) == [ns |-> [i \in 1..Len(gr.ns) |-> [ix |-> i - 1, id |-> gr.ns[i].id, p |-> gr.ns[i].p]],
              es |-> [i \in 1..Len(gr.es) |-> [ix |-> i - 1, id |-> gr.es[i].id, ls |-> gr.es[i].ls]]]
IndexOf(gr) == [points |-> Points(NetOf(gr)), segs |-> Segments(NetOf(gr))]
None == [none |-> TRUE]
Nothing == [p \in Parts |-> None]
Init == /\ \E k \in 1..Problems : \E g \in {Gen(k)} : given = g
        /\ kind \in [Parts -> BOOLEAN]
        /\ phase = "start" /\ held = Nothing /\ disk = Nothing /\ leaves = 1
Blank == [graph |-> GraphOf([ns |-> <<>>, es |-> <<>>]), tags |-> TagsOf([ns |-> <<>>, es |-> <<>>]), index |-> [points |-> {}, segs |-> {}]]
\* a mapped part is its file
Put(h, d) == /\ held' = h /\ disk' = [p \in Parts |-> IF kind[p] /\ phase # "open" THEN h[p] ELSE d[p]]
Create == phase = "start" /\ phase' = "created" /\ Put(Blank, Nothing) /\ UNCHANGED <<given, kind, leaves>>
Compress == phase = "created" /\ phase' = "filled" /\ Put([held EXCEPT !.graph = GraphOf(given), !.tags = TagsOf(given)], disk) /\ UNCHANGED <<given, kind, leaves>>
Build == /\ phase = "filled" /\ phase' = "built" /\ leaves' \in 1..2
         /\ Put([held EXCEPT !.index = IndexOf(held.graph)], disk) /\ UNCHANGED <<given, kind>>
Save == phase = "built" /\ phase' = "saved" /\ disk' = [p \in Parts |-> IF kind[p] THEN disk[p] ELSE held[p]] /\ UNCHANGED <<given, kind, held, leaves>>
Close == phase = "saved" /\ phase' = "closed" /\ held' = Nothing /\ UNCHANGED <<given, kind, disk, leaves>>
Open == phase = "closed" /\ phase' = "open" /\ held' = [p \in Parts |-> IF kind[p] THEN disk[p] ELSE Blank[p]] /\ UNCHANGED <<given, kind, disk, leaves>>
Load == /\ phase = "open" /\ phase' = "read" /\ held' = [p \in Parts |-> IF kind[p] THEN held[p] ELSE disk[p]]
        /\ PrintT("@@" \o ToJson([ns |-> given.ns, es |-> given.es, kinds |-> kind])) /\ UNCHANGED <<given, kind, disk, leaves>>
Next == Create \/ Compress \/ Build \/ Save \/ Close \/ Open \/ Load
Spec == Init /\ [][Next]_vars
\* what is read back is what was given, whatever was mapped
ReadBack == phase = "read" => held = [graph |-> GraphOf(given), tags |-> TagsOf(given), index |-> IndexOf(GraphOf(given))]
\* a tree of boxes answers as looking at everything does: only leaves whose box meets the query are opened
Indexed == phase = "read"
Bounds(S) == IF S = {} THEN <<1, 1, 0, 0>> ELSE LET m(f, g) == CHOOSE x \in f : \A y \in f : IF g THEN x <= y ELSE y <= x IN
  LET xs == UNION {{x[3][1], x[4][1]} : x \in S}  ys == UNION {{x[3][2], x[4][2]} : x \in S} IN <<m(xs, TRUE), m(ys, TRUE), m(xs, FALSE), m(ys, FALSE)>>
BoxesMeet(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
Leaf(i) == {x \in held.index.segs : (x[1] + x[2]) % leaves = i}
Boxes == {b \in [1..4 -> 0..Side] : b[1] <= b[3] /\ b[2] <= b[4]}
TreeRight == Indexed => \A b \in Boxes :
  {x \in held.index.segs : SegInBox(Seg(x), b)}
    = UNION {{x \in Leaf(i) : BoxesMeet(Bounds(Leaf(i)), b) /\ SegInBox(Seg(x), b)} : i \in 0..(leaves - 1)}
\* and the geometry agrees with itself: a degenerate box is a point on the segment, a larger box contains more
GeometryRight == Indexed => \A x \in held.index.segs : \A p \in Lattice :
  /\ SegInBox(Seg(x), <<p[1], p[2], p[1], p[2]>>) = On(p, Seg(x))
  /\ On(p, Seg(x)) = (Away(p, Seg(x))[1] = 0)
  /\ On(p, Seg(x)) = Meet(Seg(x), <<p, p>>)
  /\ \A b \in Boxes : InBox(p, b) /\ On(p, Seg(x)) => SegInBox(Seg(x), b)
==============================================================================
