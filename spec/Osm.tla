------------------------------- MODULE Osm -------------------------------
(* Import of OpenStreetMap data (C06): nodes and ways are read one after the other; c = [q, f, o, r] are the filters of tags for
   querying, filtering, one-way and reversed roads, each [d: default, rules: sequence of [r: result, k: key, hv: has a value, v: value]]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Matches(r, t) == r.k = t[1] /\ (r.hv => r.v = t[2])
RECURSIVE From(_, _, _)
From(f, t, i) == IF i > Len(f.rules) THEN f.d ELSE IF Matches(f.rules[i], t) THEN f.rules[i].r ELSE From(f, t, i + 1)
Accepts(f, t) == From(f, t, 1)                                \* the first rule that matches decides
AnyTag(f, tags) == \E i \in 1..Len(tags) : Accepts(f, tags[i])
AllTags(f, tags) == \A i \in 1..Len(tags) : Accepts(f, tags[i])
Keep(c, w) == w.vis /\ AnyTag(c.q, w.tags) /\ AllTags(c.f, w.tags)
Reversed(c, w) == AnyTag(c.r, w.tags)
Oneway(c, w) == AnyTag(c.o, w.tags) \/ Reversed(c, w)
\* ---- what is known: nodes read, vertices and edges of the network, tags of roads
Empty == [nodes |-> <<>>, verts |-> <<>>, edges |-> <<>>, etags |-> <<>>]
With(s, id) == {i \in 1..Len(s) : s[i].id = id}
ReadNode(st, n) == IF n.vis /\ With(st.nodes, n.id) = {} THEN [st EXCEPT !.nodes = Append(@, [id |-> n.id, p |-> n.p, tags |-> n.tags])] ELSE st
NodeOf(st, id) == st.nodes[CHOOSE i \in With(st.nodes, id) : TRUE]
RECURSIVE NewVerts(_, _, _)
NewVerts(st, refs, i) ==
  IF i > Len(refs) THEN st.verts
  ELSE LET v == NewVerts([st EXCEPT !.verts = IF With(st.nodes, refs[i]) # {} /\ With(st.verts, refs[i]) = {}
                                             THEN Append(@, NodeOf(st, refs[i])) ELSE @], refs, i + 1) IN v
Piece(st, w, a, b) == [id |-> w.id, s |-> a, t |-> b, ls |-> <<NodeOf(st, a).p, NodeOf(st, b).p>>]
RECURSIVE Pieces(_, _, _, _)
Pieces(c, st, w, i) ==
  IF i >= Len(w.refs) THEN <<>>
  ELSE LET a == w.refs[i]  b == w.refs[i + 1]
           here == IF With(st.nodes, a) = {} \/ With(st.nodes, b) = {} THEN <<>>
                   ELSE IF ~Oneway(c, w) THEN <<Piece(st, w, a, b), Piece(st, w, b, a)>>
                   ELSE IF Reversed(c, w) THEN <<Piece(st, w, b, a)>> ELSE <<Piece(st, w, a, b)>> IN
       here \o Pieces(c, st, w, i + 1)
ReadWay(c, st, w) ==
  IF ~Keep(c, w) THEN st
  ELSE LET p == Pieces(c, st, w, 1) IN
       [st EXCEPT !.verts = NewVerts(st, w.refs, 1), !.edges = @ \o p,
                  !.etags = IF p # <<>> /\ With(@, w.id) = {} THEN Append(@, [id |-> w.id, tags |-> w.tags]) ELSE @]
Read1(c, st, x) == IF x.k = "n" THEN ReadNode(st, x) ELSE ReadWay(c, st, x)
RECURSIVE Read(_, _, _, _)
Read(c, st, xs, i) == IF i > Len(xs) THEN st ELSE Read(c, Read1(c, st, xs[i]), xs, i + 1)
Edge(st, e) == [id |-> e.id, s |-> e.s, t |-> e.t, ls |-> e.ls, tags |-> st.etags[CHOOSE i \in With(st.etags, e.id) : TRUE].tags]
Network(st) == [verts |-> st.verts, edges |-> [i \in 1..Len(st.edges) |-> Edge(st, st.edges[i])]]
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in {s[i] : i \in 1..Len(s)} : Times(s, x) = Times(t, x)
\* ---- the profile for cars
Rule(r, k, v) == [r |-> r, k |-> k, hv |-> TRUE, v |-> v]
NotForCars == <<"footway", "pedestrian", "steps", "bridleway", "construction", "cycleway", "path", "bus_guideway", "platform">>
Car == [q |-> [d |-> FALSE, rules |-> [i \in 1..Len(NotForCars) |-> Rule(FALSE, "highway", NotForCars[i])]
                                        \o <<[r |-> TRUE, k |-> "highway", hv |-> FALSE, v |-> ""]>>],
        f |-> [d |-> TRUE, rules |-> <<>>],
        o |-> [d |-> FALSE, rules |-> <<Rule(TRUE, "oneway", "yes"), Rule(TRUE, "oneway", "true"), Rule(TRUE, "oneway", "1"),
                                        Rule(TRUE, "junction", "roundabout"), Rule(TRUE, "highway", "motorway")>>],
        r |-> [d |-> FALSE, rules |-> <<Rule(TRUE, "oneway", "-1"), Rule(TRUE, "oneway", "reverse")>>]]
\* ---- the language of filters: a sequence of words, the separators | , = being words of their own
Bool(w) == w \in {"true", "false"}
RECURSIVE Split(_, _)
Split(s, part) == IF s = <<>> THEN <<part>> ELSE IF s[1] = "|" THEN <<part>> \o Split(Tail(s), <<>>) ELSE Split(Tail(s), Append(part, s[1]))
RuleWords(p) ==
  /\ Len(p) >= 3 /\ Bool(p[1]) /\ p[2] = ","
  /\ LET t == SubSeq(p, 3, Len(p))
         eq == {i \in 1..Len(t) : t[i] = "="} IN
     /\ \A i \in 1..Len(t) : t[i] # ","
     /\ IF eq = {} THEN TRUE ELSE LET e == CHOOSE i \in eq : \A j \in eq : i <= j IN e > 1 /\ e < Len(t)
Sentence(s) == LET p == Split(s, <<>>) IN Len(p[1]) = 1 /\ Bool(p[1][1]) /\ \A i \in 2..Len(p) : RuleWords(p[i])
\* a separator within the name of a tag: neither allowed nor forbidden
Unclear(s) == LET p == Split(s, <<>>) IN \E i \in 2..Len(p) : ~\E j \in 1..Len(p[i]) : p[i][j] = ","
==============================================================================
