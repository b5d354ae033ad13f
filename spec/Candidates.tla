----------------------------- MODULE Candidates -----------------------------
(* Candidates of the positions of a track (C14) and routes between candidates (C18).
   A network G has nodes ns (points) and directed roads es = [s, t, p]; all coordinates are whole, the segments of roads run
   parallel to the axes. Distances are squared.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
Sq(p, q) == (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])
Leg(p, q) == Abs(q[1] - p[1]) + Abs(q[2] - p[2])
Far == 1000000000                     \* further than anything
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* ---- lines
Segs(p) == 1..(Len(p) - 1)
HasLen(p) == \E i \in Segs(p) : p[i] # p[i + 1]
Clamp(x, a, b) == Max(Min(a, b), Min(Max(a, b), x))
Foot(a, b, q) == <<Clamp(q[1], a[1], b[1]), Clamp(q[2], a[2], b[2])>>     \* the closest point of a segment
SegD(a, b, q) == Sq(q, Foot(a, b, q))
LineD(p, q) == MinOf({SegD(p[i], p[i + 1], q) : i \in Segs(p)})
Pos(p, i) == LET RECURSIVE S(_) S(j) == IF j <= 1 THEN 0 ELSE S(j - 1) + Leg(p[j - 1], p[j]) IN S(i)
Total(p) == Pos(p, Len(p))
Places(p, q) == {Pos(p, i) + Leg(p[i], q) : i \in {j \in Segs(p) : Foot(p[j], p[j + 1], q) = q}}
At(p, d) == LET i == CHOOSE j \in Segs(p) : Pos(p, j) <= d /\ d <= Pos(p, j + 1)
                a == p[i]  b == p[i + 1]  r == d - Pos(p, i) IN
            IF a = b THEN a ELSE IF a[1] = b[1] THEN <<a[1], IF a[2] < b[2] THEN a[2] + r ELSE a[2] - r>>
            ELSE <<IF a[1] < b[1] THEN a[1] + r ELSE a[1] - r, a[2]>>
RECURSIVE NoRep(_)
NoRep(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN NoRep(Tail(s)) ELSE <<s[1]>> \o NoRep(Tail(s))
Between(p, a, b) == LET RECURSIVE F(_) F(i) == IF i > Len(p) THEN <<>> ELSE (IF a < Pos(p, i) /\ Pos(p, i) < b THEN <<p[i]>> ELSE <<>>) \o F(i + 1) IN F(1)
Part(p, a, b) == IF a >= b THEN <<>> ELSE NoRep(<<At(p, a)>> \o Between(p, a, b) \o <<At(p, b)>>)
LineLen(p) == IF Len(p) < 2 THEN 0 ELSE Pos(p, Len(p))

\* ---- which roads are offered at point q; D: the distances of all roads
Roads(G) == 1..Len(G.es)
Dists(G, q) == [e \in Roads(G) |-> LineD(G.es[e].p, q)]
\* the radius of the first look, then doubled until a road is found or the upper limit is reached
FirstRadius(ps, i, s) ==      \* no further than to the neighbours in the track; equal points are no neighbours
  LET legs == {Leg(ps[j], ps[j + 1]) : j \in {k \in {i - 1, i} : 1 <= k /\ k < Len(ps)}} \ {0}
      r == IF s.ad THEN Max(s.lo, MinOf({s.r} \cup legs)) ELSE s.r
  IN Min(s.hi, r)
RECURSIVE Grown(_, _, _)
Grown(r, hi, d) == IF d <= r * r \/ r >= hi THEN r ELSE Grown(Min(2 * r, hi), hi, d)
\* N are the roads with the k nearest segments, ties in any way
AllSegs(G) == {<<e, i>> : e \in Roads(G), i \in 1..60} \cap UNION {{<<e, i>> : i \in Segs(G.es[e].p)} : e \in Roads(G)}
SegDists(G, q) == TLCEval([x \in AllSegs(G) |-> SegD(G.es[x[1]].p[x[2]], G.es[x[1]].p[x[2] + 1], q)])
Kth(S, k) == IF Cardinality(DOMAIN S) <= k THEN Far ELSE IF k = 0 THEN -1
             ELSE CHOOSE v \in {S[x] : x \in DOMAIN S} : Cardinality({x \in DOMAIN S : S[x] < v}) < k /\ k <= Cardinality({x \in DOMAIN S : S[x] <= v})
NearestOk(G, S, k, N) ==
  LET v == Kth(S, k)  below == {x \in DOMAIN S : S[x] < v}  tie == {x \in DOMAIN S : S[x] = v}
      sure == {x[1] : x \in below}  need == k - Cardinality(below)  extra == N \ sure IN
  IF v = Far THEN N = {x[1] : x \in DOMAIN S}
  ELSE IF k = 0 THEN N = {}
  ELSE /\ sure \subseteq N
       /\ \A e \in extra : \E x \in tie : x[1] = e
       /\ Cardinality(extra) <= need
       /\ Cardinality({x \in tie : x[1] \in N}) >= need
WithNext(G, D, N) ==
  LET A == N \cup {x \in Roads(G) : \E e \in N : G.es[x].s \in {G.es[e].s, G.es[e].t} /\ D[x] <= D[e]} IN
  A \cup {y \in Roads(G) : \E x \in A : G.es[y].s = G.es[x].t /\ G.es[y].t = G.es[x].s}
\* E: the offered roads that have an extent
Offered(G, ps, i, s, E) ==
  LET q == ps[i]
      D == TLCEval(Dists(G, q))
      flat == {e \in Roads(G) : ~HasLen(G.es[e].p)}
      nearest == IF Roads(G) = {} THEN Far ELSE MinOf({D[e] : e \in Roads(G)})
      R == Grown(FirstRadius(ps, i, s), s.hi, nearest)
      within == {e \in Roads(G) : D[e] <= R * R}
      S == IF s.kind = "circle" THEN <<>> ELSE SegDists(G, q) IN
  CASE s.kind = "circle" -> E = within \ flat
    [] s.kind = "nearest" -> \E z \in SUBSET flat : NearestOk(G, S, s.k, E \cup z)
    [] s.kind = "combined" ->
         IF s.k = 0 THEN E = {}
         ELSE IF Kth(S, s.k) > R * R THEN E = within \ flat
         ELSE \E z \in SUBSET flat : NearestOk(G, S, s.k, E \cup z)
    [] s.kind = "next" ->
         LET v == Kth(S, s.k)  X == {x[1] : x \in {y \in DOMAIN S : S[y] <= v}} IN
         \E N \in {n \in SUBSET X : Cardinality(n) <= s.k} : NearestOk(G, S, s.k, N) /\ WithNext(G, D, N) \ flat = E

\* ---- a candidate: the closest point of the road, and the road split there
Own(c) == {x \in SetOf(c.es) : ~x.a}
RightSplit(line, x) ==
  /\ \E d \in Places(line, x.p) :
       /\ x.fl = d /\ x.tl = Total(line) - d
       /\ NoRep(x.f) = Part(line, 0, d) /\ NoRep(x.t) = Part(line, d, Total(line))
RightCandidate(G, q, x) ==
  /\ x.e \in Roads(G)
  /\ LET line == G.es[x.e].p IN
     /\ HasLen(line) /\ x.d = Sq(q, x.p) /\ x.d = LineD(line, q) /\ RightSplit(line, x)
Key(x) == <<x.e, x.p>>
Keys(c) == {Key(x) : x \in Own(c)}
\* ---- adopted candidates: of the neighbours, and of whatever position whose way to its candidate comes near
Longest(c) == IF Own(c) = {} THEN 0 ELSE MaxOf({x.d : x \in Own(c)})
Reaches(q, a, b, m) ==       \* the way from a to b comes as near to q as m; "tie" where measuring may go either way
  LET d == (b[1] - a[1]) * (q[1] - a[1]) + (b[2] - a[2]) * (q[2] - a[2])
      c == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1])
      n == Sq(a, b) IN
  IF d <= 0 THEN (IF Sq(q, a) <= m THEN "yes" ELSE "no") ELSE IF d >= n THEN (IF Sq(q, b) <= m THEN "yes" ELSE "no")
  ELSE IF c * c < m * n THEN "yes" ELSE IF c * c > m * n THEN "no" ELSE IF a[1] = b[1] \/ a[2] = b[2] THEN "yes" ELSE "tie"
Sibling(cs, i) == (IF i > 1 THEN Keys(cs[i - 1]) ELSE {}) \cup (IF i < Len(cs) THEN Keys(cs[i + 1]) ELSE {})
Others(cs, i) == UNION {Keys(cs[j]) : j \in (1..Len(cs)) \ {i}}
NearOf(ps, cs, i, j, m, how) == {Key(x) : x \in {y \in Own(cs[j]) : Reaches(ps[i], ps[j], y.p, m) \in how}}
Nearby(ps, cs, i, how) == IF Longest(cs[i]) = 0 THEN {}
                          ELSE UNION {NearOf(ps, cs, i, j, Longest(cs[i]), how) : j \in (1..Len(cs)) \ {i}}
\* positions that adopted something of this one give their own in return
Returned(ps, cs, i) == UNION {Keys(cs[j]) : j \in {k \in (1..Len(cs)) \ {i} : Longest(cs[k]) > 0 /\ NearOf(ps, cs, k, i, Longest(cs[k]), {"yes"}) # {}}}
AdoptMust(ps, cs, i, s) == ((IF s.si THEN Sibling(cs, i) ELSE {}) \cup (IF s.ne THEN Nearby(ps, cs, i, {"yes"}) ELSE {})
                            \cup (IF s.ne /\ s.re THEN Returned(ps, cs, i) ELSE {})) \ Keys(cs[i])
AdoptMay(ps, cs, i, s) == IF s.ne /\ s.re THEN Others(cs, i)
                          ELSE (IF s.si THEN Sibling(cs, i) ELSE {}) \cup (IF s.ne THEN Nearby(ps, cs, i, {"yes", "tie"}) ELSE {})
RightAdopted(G, ps, cs, i, s) ==
  LET ad == {x \in SetOf(cs[i].es) : x.a} IN
  /\ AdoptMust(ps, cs, i, s) \subseteq {Key(x) : x \in ad}
  /\ \A x \in ad : /\ Key(x) \in AdoptMay(ps, cs, i, s) \ Keys(cs[i])
                   /\ x.d = Sq(ps[i], x.p)
                   /\ \E j \in (1..Len(cs)) \ {i} : \E y \in Own(cs[j]) : Key(y) = Key(x) /\ y.f = x.f /\ y.t = x.t /\ y.fl = x.fl /\ y.tl = x.tl
RightNodes(G, q, c) ==
  LET vs == UNION {{G.es[x.e].s, G.es[x.e].t} : x \in SetOf(c.es)} IN
  /\ Len(c.vs) = Cardinality(vs) /\ {x.v : x \in SetOf(c.vs)} = vs
  /\ \A x \in SetOf(c.vs) : x.d = Sq(q, G.ns[x.v])
  /\ \A k \in 1..(Len(c.vs) - 1) : c.vs[k].d <= c.vs[k + 1].d
RightSearch(G, ps, s, cs) ==
  /\ Len(cs) = Len(ps)
  /\ \A i \in 1..Len(cs) :
       /\ cs[i].ix = i - 1
       /\ cs[i].eq = (i < Len(ps) /\ ps[i] = ps[Min(i + 1, Len(ps))])
       /\ \A x \in Own(cs[i]) : RightCandidate(G, ps[i], x)
       /\ Offered(G, ps, i, s, {x.e : x \in Own(cs[i])})
       /\ Cardinality({x.e : x \in Own(cs[i])}) = Cardinality({k \in 1..Len(cs[i].es) : ~cs[i].es[k].a})    \* each once
       /\ Cardinality({Key(x) : x \in SetOf(cs[i].es)}) = Len(cs[i].es)
       /\ \A k \in 1..(Len(cs[i].es) - 1) : cs[i].es[k].d <= cs[i].es[k + 1].d
       /\ RightAdopted(G, ps, cs, i, s)
       /\ RightNodes(G, ps[i], cs[i])

\* ---- routes between two candidates
DistFrom(G, v0) ==            \* shortest permitted ways from node v0
  LET w == [e \in Roads(G) |-> LineLen(G.es[e].p)]
      RECURSIVE Relax(_, _)
      Relax(d, e) == IF e = 0 THEN d
                     ELSE LET x == Relax(d, e - 1)  r == G.es[e] IN
                          IF x[r.s] < Far /\ x[r.s] + w[e] < x[r.t] THEN [x EXCEPT ![r.t] = x[r.s] + w[e]] ELSE x
      RECURSIVE Fix(_)
      Fix(d) == LET x == TLCEval(Relax(d, Len(G.es))) IN IF x = d THEN d ELSE Fix(x) IN
  Fix([v \in 1..Len(G.ns) |-> IF v = v0 THEN 0 ELSE Far])
Direct(x, y) == x.e = y.e /\ x.fl <= y.fl                    \* further along the same road
\* twice the limit factor f2 (< 0: none) times the distance to the furthest node of the goal position, or to the goal
InLimit(G, x, y, goals, astar, f2, d) ==
  IF f2 < 0 THEN TRUE
  ELSE LET v == G.es[x.e].t
           m == IF astar THEN Sq(G.ns[v], G.ns[G.es[y.e].s]) ELSE MaxOf({Sq(G.ns[v], G.ns[g]) : g \in goals}) IN
       4 * d * d <= f2 * f2 * m
GoalNodes(c) == {g.v : g \in SetOf(c.vs)}
HasRouteIn(G, cs, r, Dist(_, _)) ==
  LET x == cs[r.f + 1].es[r.s + 1]  y == cs[r.t + 1].es[r.g + 1] IN
  IF x.p = y.p THEN TRUE ELSE IF Direct(x, y) THEN TRUE
  ELSE LET d == Dist(G.es[x.e].t, G.es[y.e].s) IN
       d < Far /\ (d = 0 \/ InLimit(G, x, y, GoalNodes(cs[r.t + 1]), r.astar, r.f2, d))
HasRoute(G, cs, r) == LET Dist(u, v) == DistFrom(G, u)[v] IN HasRouteIn(G, cs, r, Dist)
\* all shortest ways from u to v as sequences of points
ShortestWays(G, u, v) ==
  LET D == DistFrom(G, u)
      RECURSIVE Back(_, _, _)
      Back(x, q, seen) == (IF x = u THEN {q} ELSE {}) \cup
         UNION {IF G.es[e].s \in seen THEN {} ELSE Back(G.es[e].s, NoRep(G.es[e].p \o q), seen \cup {G.es[e].s}) :
                  e \in {k \in Roads(G) : G.es[k].t = x /\ D[G.es[k].s] < Far /\ D[G.es[k].s] + LineLen(G.es[k].p) = D[x]}} IN
  IF D[v] >= Far THEN {} ELSE Back(v, <<>>, {v})
\* going back within a road: what is gone forth and back is left out
RECURSIVE Same(_, _, _)
Same(p, q, k) == IF k < Len(p) /\ k < Len(q) /\ p[Len(p) - k] = q[k + 1] THEN Same(p, q, k + 1) ELSE k
Dir(p, q) == <<IF p[1] < q[1] THEN 1 ELSE IF p[1] > q[1] THEN -1 ELSE 0, IF p[2] < q[2] THEN 1 ELSE IF p[2] > q[2] THEN -1 ELSE 0>>
Trimmed(p, q) ==
  IF Len(p) < 2 \/ Len(q) < 2 THEN NoRep(p \o q)
  ELSE LET k == Same(p, q, 0)
           x == SubSeq(p, 1, Len(p) - k + 1)  y == SubSeq(q, k, Len(q)) IN
       IF Len(x) >= 2 /\ Len(y) >= 2 /\ (LET a == Dir(x[Len(x) - 1], x[Len(x)])  b == Dir(y[1], y[2]) IN a[1] = -b[1] /\ a[2] = -b[2])
       THEN NoRep(SubSeq(x, 1, Len(x) - 1) \o Tail(y)) ELSE NoRep(x \o y)
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o Flat(Tail(ls))
Attached(ls) == \A i \in 1..(Len(ls) - 1) : ls[i] = <<>> \/ ls[i + 1] = <<>> \/ ls[i][Len(ls[i])] = ls[i + 1][1]
Shape(ls) == LET q == NoRep(Flat(ls)) IN IF Len(q) < 2 THEN <<>> ELSE q
AsShape(q) == IF Len(q) < 2 THEN <<>> ELSE q
RightRoute(G, cs, r) ==
  LET x == cs[r.f + 1].es[r.s + 1]  y == cs[r.t + 1].es[r.g + 1] IN
  IF r.r.inv THEN ~HasRoute(G, cs, r)
  ELSE /\ HasRoute(G, cs, r)
       /\ Attached(r.r.ls)
       /\ LET p == Shape(r.r.ls) IN
          /\ r.r.len = LineLen(p)
          /\ IF x.p = y.p THEN p = <<>>
             ELSE IF Direct(x, y) THEN p = Part(G.es[x.e].p, x.fl, y.fl)
             ELSE \E w \in ShortestWays(G, G.es[x.e].t, G.es[y.e].s) :
                    p = AsShape(IF r.turns THEN Trimmed(Trimmed(NoRep(x.t), w), NoRep(y.f)) ELSE NoRep(x.t \o w \o y.f))
\* ---- the route of a choice ch of pairs (position, candidate) from 0; rs are the routes between each two of its positions
RECURSIVE Steps(_)            \* in steps of one
Steps(p) == IF Len(p) < 2 THEN <<>>
            ELSE [k \in 1..Leg(p[1], p[2]) |-> LET d == Dir(p[1], p[2]) IN <<<<p[1][1] + (k - 1) * d[1], p[1][2] + (k - 1) * d[2]>>, d>>] \o Steps(Tail(p))
RECURSIVE StepsOfAll(_)
StepsOfAll(ls) == IF ls = <<>> THEN <<>> ELSE Steps(ls[1]) \o StepsOfAll(Tail(ls))
\* a choice repeated for a position given up leaves a gap; where it is repeated further, the gap may be closed again
Again(ch, k) == LET RECURSIVE N(_) N(j) == IF j < 2 \/ ch[j - 1][1] # ch[j][1] THEN 0 ELSE 1 + N(j - 1) IN N(k)
Taken(ch, rs, f) == LET RECURSIVE W(_)
                        W(k) == IF k >= Len(ch) THEN <<>>
                                ELSE (IF rs[k] = <<>> THEN <<>> ELSE IF (Again(ch, k) = 0 \/ k \in f) /\ ~rs[k][1].r.inv THEN StepsOfAll(rs[k][1].r.ls) ELSE <<>>) \o W(k + 1)
                    IN W(1)
RightJoin(G, cs, x) ==
  /\ Len(x.rs) = (IF x.ch = <<>> THEN 0 ELSE Len(x.ch) - 1)
  /\ \A k \in 1..Len(x.rs) : x.rs[k] = <<>> \/ RightRoute(G, cs, x.rs[k][1])
  /\ LET w == StepsOfAll(x.way.ls)  free == {k \in 1..Len(x.rs) : x.rs[k] # <<>> /\ Again(x.ch, k) > 1} IN
     /\ \E f \in SUBSET free : w = Taken(x.ch, x.rs, f)
     /\ x.way.len = Len(w) /\ x.way.inv = (w = <<>>)
\* ---- what the environments make of the candidates
OkPairs(G, cs, x, i) ==       \* pairs of candidates of positions i and i + 1 with a route
  LET D == TLCEval([v \in {G.es[c.e].t : c \in SetOf(cs[i].es)} |-> DistFrom(G, v)])
      Dist(u, v) == D[u][v] IN
  TLCEval({z \in (1..Len(cs[i].es)) \X (1..Len(cs[i + 1].es)) :
     HasRouteIn(G, cs, [f |-> i - 1, s |-> z[1] - 1, t |-> i, g |-> z[2] - 1, astar |-> x.astar, f2 |-> x.f2], Dist)})
RightHmm(G, cs, x) ==
  /\ Len(x.obs) = Len(cs) /\ Len(x.tr) = Len(cs)
  /\ \A i \in 1..Len(cs) : /\ Len(x.obs[i]) = Len(cs[i].es) /\ Len(x.tr[i]) = Len(cs[i].es)
                            /\ \A k \in 1..Len(cs[i].es) : x.obs[i][k] \in -99999..0
  /\ \A i \in 2..Len(cs) : LET ok == OkPairs(G, cs, x, i - 1) IN
       \A g \in 1..Len(cs[i].es) : \A s \in 1..Len(cs[i - 1].es) : IF <<s, g>> \in ok THEN x.tr[i][g][s] \in -99999..0 ELSE x.tr[i][g][s] = -1000000
RightMdp(G, cs, x) ==
  LET ok == TLCEval([i \in 1..(Len(cs) - 1) |-> OkPairs(G, cs, x, i)]) IN
  /\ x.m[1].pos = 0 /\ x.m[1].prev = <<>>
  /\ \A i \in 1..Len(x.m) :
       LET z == x.m[i]  c == IF z.pos < Len(cs) THEN Len(cs[z.pos + 1].es) ELSE 0 IN
       /\ Len(z.acts) = Max(c, 1)
       /\ \A a \in 1..Len(z.acts) : LET y == z.acts[a]
                                         impossible == c > 0 /\ z.prev # <<>> /\ z.prev[2] >= 0 /\ <<z.prev[2] + 1, a>> \notin ok[z.prev[1] + 1] IN
            /\ y.r <= 0
            /\ y.e \in (IF c = 0 THEN {-1} ELSE IF impossible THEN {-2} ELSE IF z.prev = <<>> THEN {a - 1} ELSE {a - 1, -2})
=============================================================================
