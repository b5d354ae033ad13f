----------------------------- MODULE NetworkMC -----------------------------
(* Every road network with few nodes and roads, simplified step by step in   *)
(* any order.  The invariant is the relation the real code is judged by, so  *)
(* the model shows that merging at pass-through nodes satisfies it, and each *)
(* initial network is printed as an input for the real code.                 *)
EXTENDS Network, Json
CONSTANTS MaxN, MaxR, Share   \* Share: how many initial networks of 1000 are explored
VARIABLES roads, n0, cur, complete, done

\* a road kind <<a, b, m>>: m = 1 one-way a->b, 2 one-way b->a, 3 two-way; <<a,a,1>> and <<a,a,3>> are loops
Kinds == {<<a, b, m>> \in (1..MaxN) \X (1..MaxN) \X (1..3) : a < b \/ (a = b /\ m # 2)}
Geo(a, b, k) == IF a = b THEN <<<<10 * a, 0>>, <<10 * a, k>>, <<10 * a + 1, k>>, <<10 * a + 1, 0>>, <<10 * a, 0>>>>
                ELSE <<<<10 * a, 0>>, <<10 * a, k>>, <<10 * b, k>>, <<10 * b, 0>>>>
TagsOf(id) == IF id = 1 THEN <<1>> ELSE <<2, 3>>
EdgesOf(r, k) ==
  LET f == [id |-> r[2], s |-> r[1][1], t |-> r[1][2], pts |-> Geo(r[1][1], r[1][2], k), tags |-> TagsOf(r[2])]
      b == [f EXCEPT !.s = f.t, !.t = f.s, !.pts = Reverse(f.pts)]
  IN IF r[1][3] = 1 THEN <<f>> ELSE IF r[1][3] = 2 THEN <<b>> ELSE <<f, b>>
Build(rs) == [nodes |-> [v \in 1..MaxN |-> [x |-> 10 * v, y |-> 0, tags |-> <<>>]],
              edges |-> FlattenSeq([k \in 1..Len(rs) |-> EdgesOf(rs[k], k)])]
KSeq == SetToSeq(Kinds)
NK == Len(KSeq)
RECURSIVE Combos(_, _)
Combos(lo, n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<i>> \o c : c \in Combos(i, n - 1)} : i \in lo..NK}

Init == /\ \E c \in Combos(1, MaxR), ids \in [1..MaxR -> 1..2] :
             /\ ids[1] = 1
             /\ RandomElement(1..1000) <= Share
             /\ roads = [k \in 1..MaxR |-> <<KSeq[c[k]], ids[k]>>]
        /\ complete \in BOOLEAN
        /\ n0 = Build(roads) /\ cur = n0 /\ done = FALSE

\* the pairs of edges that are joined at v, or {} when v is not pass-through
Pairs(N, v) ==
  LET I == InE(N, v)  O == OutE(N, v)
      ok(i, o) == N.edges[i].s # N.edges[o].t /\ (complete \/ (N.edges[i].id = N.edges[o].id /\ N.edges[i].tags = N.edges[o].tags))
  IN IF Cardinality(I) = 1 /\ Cardinality(O) = 1
     THEN {<<i, o>> \in I \X O : i # o /\ ok(i, o)}
     ELSE IF Cardinality(I) = 2 /\ Cardinality(O) = 2
             /\ \E f \in [I -> O] : {f[i] : i \in I} = O /\ \A i \in I : i # f[i] /\ N.edges[i].pts = Reverse(N.edges[f[i]].pts)
                                                             /\ N.edges[i].s = N.edges[f[i]].t
          THEN LET P == {<<i, o>> \in I \X O : i # o /\ ok(i, o)} IN IF Cardinality(P) = 2 THEN P ELSE {}
          ELSE {}
Tags2(a, b) == a \o SelectSeq(b, LAMBDA t : t \notin SetOf(a))
Join(a, b) == [id |-> a.id, s |-> a.s, t |-> b.t, pts |-> JoinPts(a.pts, b.pts), tags |-> Tags2(a.tags, b.tags)]
MergeAt(v) ==
  LET P == Pairs(cur, v)  used == {p[1] : p \in P} \cup {p[2] : p \in P}
      keep == SelectSeq([i \in 1..Len(cur.edges) |-> i], LAMBDA i : i \notin used)
      es == [i \in 1..Len(keep) |-> cur.edges[keep[i]]] \o SetToSeq({Join(cur.edges[p[1]], cur.edges[p[2]]) : p \in P})
      \* tags belong to the road identifier: every edge of it sees the merged tags
      newtags == [id \in {cur.edges[p[1]].id : p \in P} |->
                    LET p == CHOOSE q \in P : cur.edges[q[1]].id = id IN Tags2(cur.edges[p[1]].tags, cur.edges[p[2]].tags)]
  IN /\ P # {}
     /\ cur' = [nodes |-> [w \in DOMAIN cur.nodes \ {v} |-> cur.nodes[w]],
                edges |-> [i \in 1..Len(es) |-> IF es[i].id \in DOMAIN newtags
                                                THEN [es[i] EXCEPT !.tags = Tags2(newtags[es[i].id], es[i].tags)] ELSE es[i]]]
     /\ UNCHANGED <<roads, n0, complete, done>>
Start == ~done /\ done' = TRUE /\ UNCHANGED <<roads, n0, cur, complete>>
Merge == done /\ \E v \in DOMAIN cur.nodes : MergeAt(v)
Next == Start \/ Merge
Spec == Init /\ [][Next]_<<roads, n0, cur, complete, done>>
Correct == SimplifyRel(n0, cur, complete)
\* for the clean-up relations: they accept the trivial step exactly when there is nothing to do
CleanupSound ==
  done => /\ DupEdgesRel(n0, n0)
          /\ (LargestRel(n0, n0) <=> (Cardinality(Components(n0)) = 1))
          /\ DupNodesRel(n0, n0, FALSE, FALSE)
Emit == done \/ PrintT("@@" \o ToJson([roads |-> roads, complete |-> complete]))
=============================================================================
