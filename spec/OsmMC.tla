------------------------------ MODULE OsmMC ------------------------------
(* All short files of nodes and ways of a small world, against what the network must contain, said without reading step by step. *)
EXTENDS Osm, Json
CONSTANTS Problems, Choice, Depth
VARIABLES c, world, items, st
vars == <<c, world, items, st>>
Keys == {"a", "b"}  Vals == {"1", "2"}
Tag == Keys \X Vals
RuleOf == [r : BOOLEAN, k : Keys, hv : BOOLEAN, v : Vals]
Filter(n) == [d |-> RandomElement(BOOLEAN), rules |-> [i \in 1..n |-> RandomElement(RuleOf)]]
Tags == {<<>>, <<<<"a", "1">>>>, <<<<"b", "2">>>>, <<<<"a", "1">>, <<"b", "1">>>>, <<<<"b", "1">>, <<"a", "2">>>>}
Refs == UNION {[1..n -> 1..3] : n \in 0..3}
Node(i) == [k |-> "n", id |-> RandomElement(1..3), vis |-> RandomElement({TRUE, TRUE, FALSE} \cup {i > 2}), p |-> <<i, RandomElement(0..3)>>, tags |-> RandomElement(Tags), refs |-> <<>>]
Way(i) == [k |-> "w", id |-> RandomElement(1..3), vis |-> RandomElement(1..9) # 1, p |-> <<0, 0>>, tags |-> RandomElement(Tags \ {<<>>}), refs |-> RandomElement(Refs)]
Thing(i) == IF i <= Choice \div 2 THEN Node(i) ELSE Way(i)
Gen(n) == [c |-> [q |-> Filter(n % 4), f |-> Filter((n \div 2) % 3), o |-> Filter(n % 3), r |-> Filter((n \div 3) % 3)], w |-> [i \in 1..Choice |-> Thing(i)]]
Init == \E n \in 1..Problems : \E g \in {Gen(n)} : c = g.c /\ world = g.w /\ items = <<>> /\ st = Empty
Say(x) == IF Len(items') = Depth THEN PrintT("@@" \o ToJson([cfg |-> c, items |-> items'])) ELSE TRUE
Take == /\ Len(items) < Depth
        /\ \E i \in 1..Choice : items' = Append(items, world[i]) /\ st' = Read1(c, st, world[i])
        /\ UNCHANGED <<c, world>> /\ Say(0)
Next == Take
Spec == Init /\ [][Next]_vars
\* ---- said at once
KnownBefore(i, id) == \E j \in 1..(i - 1) : items[j].k = "n" /\ items[j].vis /\ items[j].id = id
FirstOf(id) == items[CHOOSE j \in 1..Len(items) : /\ items[j].k = "n" /\ items[j].vis /\ items[j].id = id
                                                  /\ \A m \in 1..(j - 1) : ~(items[m].k = "n" /\ items[m].vis /\ items[m].id = id)]
\* two ways of saying which rule decides
Decides(f, t) == LET M == {i \in 1..Len(f.rules) : Matches(f.rules[i], t)} IN IF M = {} THEN f.d ELSE f.rules[CHOOSE i \in M : \A j \in M : i <= j].r
Some(f, tags) == {i \in 1..Len(tags) : Decides(f, tags[i])}
Kept(w) == w.vis /\ Some(c.q, w.tags) # {} /\ Some(c.f, w.tags) = 1..Len(w.tags)
Fwd(w) == Some(c.r, w.tags) = {}
Bwd(w) == Some(c.r, w.tags) # {} \/ Some(c.o, w.tags) = {}
Count(id, a, b) ==      \* pieces of the ways called id from a to b
  Cardinality({<<i, j, d>> \in (1..Len(items)) \X (1..2) \X BOOLEAN :
     /\ items[i].k = "w" /\ items[i].id = id /\ Kept(items[i]) /\ j < Len(items[i].refs)
     /\ IF d THEN Fwd(items[i]) /\ items[i].refs[j] = a /\ items[i].refs[j + 1] = b
             ELSE Bwd(items[i]) /\ items[i].refs[j] = b /\ items[i].refs[j + 1] = a
     /\ KnownBefore(i, a) /\ KnownBefore(i, b)})
EdgesRight == \A id \in 1..3, a \in 1..3, b \in 1..3 :
  Cardinality({i \in 1..Len(st.edges) : st.edges[i].id = id /\ st.edges[i].s = a /\ st.edges[i].t = b}) = Count(id, a, b)
EndsRight == \A i \in 1..Len(st.edges) : st.edges[i].ls = <<FirstOf(st.edges[i].s).p, FirstOf(st.edges[i].t).p>>
VertsRight == /\ \A id \in 1..3 : With(st.verts, id) # {} <=>
                   \E i \in 1..Len(items) : items[i].k = "w" /\ Kept(items[i]) /\ KnownBefore(i, id) /\ \E j \in 1..Len(items[i].refs) : items[i].refs[j] = id
              /\ \A i, j \in 1..Len(st.verts) : st.verts[i].id = st.verts[j].id => i = j
              /\ \A i \in 1..Len(st.verts) : st.verts[i].tags = FirstOf(st.verts[i].id).tags /\ st.verts[i].p = FirstOf(st.verts[i].id).p
TagsRight == \A i \in 1..Len(st.edges) : \E j \in 1..Len(items) : items[j].k = "w" /\ items[j].id = st.edges[i].id /\ Kept(items[j]) /\ Edge(st, st.edges[i]).tags = items[j].tags
==============================================================================
