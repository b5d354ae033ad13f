------------------------------ MODULE Network ------------------------------
(* Road networks during preparation: simplification and clean-up.           *)
(* A network is [nodes |-> id :> [x,y,tags], edges |-> Seq([id,s,t,pts,tags])] *)
(* s,t are node ids, pts a sequence of <<x,y>> with axis-parallel segments,  *)
(* so every length is an integer.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Functions, SequencesExt

INF == 1000000
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
SetOf(s) == {s[i] : i \in 1..Len(s)}
PtsLen(p) == FoldLeft(LAMBDA acc, i : acc + Abs(p[i+1][1] - p[i][1]) + Abs(p[i+1][2] - p[i][2]), 0,
                      [i \in 1..(Len(p) - 1) |-> i])
JoinPts(a, b) == a \o SubSeq(b, 2, Len(b))

(* ---- shortest travel distances between all nodes (Floyd-Warshall) ---- *)
Dist(N) ==
  LET V == DOMAIN N.nodes
      ln == [i \in 1..Len(N.edges) |-> PtsLen(N.edges[i].pts)]
      d0 == [p \in V \X V |-> IF p[1] = p[2] THEN 0
               ELSE LET c == {ln[i] : i \in {j \in 1..Len(N.edges) : N.edges[j].s = p[1] /\ N.edges[j].t = p[2]}} IN
                    IF c = {} THEN INF ELSE CHOOSE x \in c : \A y \in c : x <= y]
      step(d, k) == TLCEval([p \in V \X V |-> Min2(d[p], Min2(d[<<p[1], k>>] + d[<<k, p[2]>>], INF))])
  IN FoldLeft(step, d0, SetToSeq(V))

(* ---- pass-through nodes ---- *)
InE(N, v) == {i \in 1..Len(N.edges) : N.edges[i].t = v}
OutE(N, v) == {i \in 1..Len(N.edges) : N.edges[i].s = v}
LastSeg(p) == <<p[Len(p) - 1], p[Len(p)]>>
FirstSegRev(p) == <<p[2], p[1]>>
PassThrough(N, v) ==
  LET I == InE(N, v)  O == OutE(N, v) IN
  \/ Cardinality(I) = 1 /\ Cardinality(O) = 1
  \/ /\ Cardinality(I) = 2 /\ Cardinality(O) = 2
     /\ \E f \in [I -> O] : /\ {f[i] : i \in I} = O
                            /\ \A i \in I : i # f[i] /\ LastSeg(N.edges[i].pts) = FirstSegRev(N.edges[f[i]].pts)

(* ---- chains of edges that are exactly the geometry of edge e ---- *)
RECURSIVE ChainsFrom(_, _, _, _, _)
\* chains starting at node v whose joined geometry is the suffix of e.pts starting at index k
ChainsFrom(N, e, v, k, R) ==
  LET cand == {i \in 1..Len(N.edges) :
                 LET b == N.edges[i] n == Len(b.pts) IN
                 b.s = v /\ k + n - 1 <= Len(e.pts) /\ SubSeq(e.pts, k, k + n - 1) = b.pts}
      done == {<<i>> : i \in {j \in cand : k + Len(N.edges[j].pts) - 1 = Len(e.pts) /\ N.edges[j].t = e.t}}
      more == {j \in cand : k + Len(N.edges[j].pts) - 1 < Len(e.pts) /\ N.edges[j].t \in R}
  IN done \cup UNION {{<<i>> \o c : c \in ChainsFrom(N, e, N.edges[i].t, k + Len(N.edges[i].pts) - 1, R)} : i \in more}

RECURSIVE CloseIds(_, _)
CloseIds(S, links) == LET T == S \cup UNION {l \in links : l \cap S # {}} IN IF T = S THEN S ELSE CloseIds(T, links)

\* the edges of M have the tags of the chains as
TagsKept(N, M, as, complete) ==
  LET TagsN(id) == UNION {SetOf(N.edges[i].tags) : i \in {j \in 1..Len(N.edges) : N.edges[j].id = id}}
      links == {{N.edges[i].id : i \in SetOf(as[m])} : m \in 1..Len(as)} IN
  \A m \in 1..Len(as) :
    LET e == M.edges[m]  parts == {N.edges[i] : i \in SetOf(as[m])} IN
    /\ \E p \in parts : p.id = e.id
    /\ IF complete
       THEN /\ UNION {SetOf(p.tags) : p \in parts} \subseteq SetOf(e.tags)
            /\ SetOf(e.tags) \subseteq UNION {TagsN(i) : i \in CloseIds({e.id}, links)}
            /\ Len(e.tags) = Cardinality(SetOf(e.tags))
       ELSE \A p \in parts : p.id = e.id /\ p.tags = e.tags

RECURSIVE Covers(_, _, _, _, _, _, _)
\* edges m.. of M can be given disjoint chains outside of used, using up all edges of N, tags as they must be
\* (edges that are the same in everything are taken in their order)
Covers(N, M, CH, m, used, as, complete) ==
  IF m > Len(M.edges) THEN Cardinality(used) = Len(N.edges) /\ TagsKept(N, M, as, complete)
  ELSE \E c \in CH[m] : /\ SetOf(c) \cap used = {} /\ Cardinality(SetOf(c)) = Len(c)
                        /\ \A i \in SetOf(c), j \in 1..Len(N.edges) : j < i /\ j \notin used \cup SetOf(c) => N.edges[j] # N.edges[i]
                        /\ \E i \in SetOf(c) : N.edges[i].id = M.edges[m].id
                        /\ \A i \in SetOf(c) : IF complete THEN SetOf(N.edges[i].tags) \subseteq SetOf(M.edges[m].tags)
                                                ELSE N.edges[i].id = M.edges[m].id /\ N.edges[i].tags = M.edges[m].tags
                        /\ Covers(N, M, CH, m + 1, used \cup SetOf(c), Append(as, c), complete)

SimplifyRel(N, M, complete) ==
  LET R == DOMAIN N.nodes \ DOMAIN M.nodes
      CH == TLCEval([m \in 1..Len(M.edges) |-> ChainsFrom(N, M.edges[m], M.edges[m].s, 1, R)])
  IN /\ DOMAIN M.nodes \subseteq DOMAIN N.nodes
     /\ \A v \in DOMAIN M.nodes : M.nodes[v] = N.nodes[v]
     /\ \A v \in R : PassThrough(N, v)
     /\ \A m \in 1..Len(M.edges) : CH[m] # {}
     /\ Covers(N, M, CH, 1, {}, <<>>, complete)
     /\ LET a == Dist(N)  b == Dist(M) IN \A p \in DOMAIN b : a[p] = b[p]

(* ---- components ---- *)
RECURSIVE Grow(_, _)
Grow(N, S) == LET T == S \cup {N.edges[i].t : i \in {j \in 1..Len(N.edges) : N.edges[j].s \in S}}
                         \cup {N.edges[i].s : i \in {j \in 1..Len(N.edges) : N.edges[j].t \in S}}
              IN IF T = S THEN S ELSE Grow(N, T)
Components(N) == {Grow(N, {v}) : v \in DOMAIN N.nodes}
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
BagEq(a, b) == Len(a) = Len(b) /\ \A x \in SetOf(a) : CountIn(a, x) = CountIn(b, x)

LargestRel(N, M) ==
  IF DOMAIN N.nodes = {} THEN M.nodes = N.nodes /\ M.edges = N.edges
  ELSE \E C \in Components(N) :
         /\ DOMAIN M.nodes = C
         /\ \A D \in Components(N) : Cardinality(D) <= Cardinality(C)
         /\ \A v \in C : M.nodes[v] = N.nodes[v]
         /\ BagEq(M.edges, SelectSeq(N.edges, LAMBDA e : e.s \in C))

(* ---- duplicates ---- *)
Pos(N, v) == <<N.nodes[v].x, N.nodes[v].y>>
DupNodesRel(N, M, simplify, complete) ==
  LET group(v) == {w \in DOMAIN N.nodes : Pos(N, w) = Pos(N, v)}
      rep(v) == LET g == group(v) \cap DOMAIN M.nodes IN
                IF g # {} THEN CHOOSE w \in g : TRUE ELSE CHOOSE w \in group(v) : \A x \in group(v) : w <= x
      reps == {rep(v) : v \in DOMAIN N.nodes}
      D == [nodes |-> [v \in reps |-> N.nodes[v]],
            edges |-> [i \in 1..Len(N.edges) |-> [N.edges[i] EXCEPT !.s = rep(N.edges[i].s), !.t = rep(N.edges[i].t)]]]
  IN /\ DOMAIN M.nodes \subseteq DOMAIN N.nodes
     /\ \A v \in DOMAIN M.nodes : group(v) \cap DOMAIN M.nodes = {v}
     /\ IF simplify THEN SimplifyRel(D, M, complete)
        ELSE M.nodes = D.nodes /\ BagEq(M.edges, D.edges)

DupEdgesRel(N, M) ==
  /\ M.nodes = N.nodes
  /\ \A i \in 1..Len(M.edges) : M.edges[i] \in SetOf(N.edges) /\ CountIn(M.edges, M.edges[i]) = 1
  /\ \A i \in 1..Len(N.edges) : \E j \in 1..Len(M.edges) : M.edges[j].id = N.edges[i].id /\ M.edges[j].pts = N.edges[i].pts
                                     /\ Pos(N, M.edges[j].s) = Pos(N, N.edges[i].s) /\ Pos(N, M.edges[j].t) = Pos(N, N.edges[i].t)
=============================================================================
