------------------------------- MODULE Search -------------------------------
(* Traversals and shortest-path searches on a weighted directed graph       *)
(* G = [n |-> number of vertices, es |-> Seq([s, t, w])]; vertices are 1..n. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

INF == 1000000000
SetOf2(q) == {q[i] : i \in 1..Len(q)}
Min2(a, b) == IF a < b THEN a ELSE b
Vs(G) == 1..G.n
Out(G, v) == {i \in 1..Len(G.es) : G.es[i].s = v}

RECURSIVE ReachFrom(_, _)
ReachFrom(G, S) == LET T == S \cup {G.es[i].t : i \in {j \in 1..Len(G.es) : G.es[j].s \in S}}
                   IN IF T = S THEN S ELSE ReachFrom(G, T)
Reach(G, s) == ReachFrom(G, {s})

\* shortest distances from s: Bellman-Ford
DistFrom(G, s) ==
  LET d0 == [v \in Vs(G) |-> IF v = s THEN 0 ELSE INF]
      relax(d, e) == IF d[e.s] < INF /\ d[e.s] + e.w < d[e.t] THEN [d EXCEPT ![e.t] = d[e.s] + e.w] ELSE d
      round(d, k) == TLCEval(FoldLeft(relax, d, G.es))
  IN FoldLeft(round, d0, [k \in 1..G.n |-> k])
HopsFrom(G, s) == DistFrom([G EXCEPT !.es = [i \in 1..Len(G.es) |-> [G.es[i] EXCEPT !.w = 1]]], s)

Best(G, u, v) == LET W == {G.es[i].w : i \in {j \in 1..Len(G.es) : G.es[j].s = u /\ G.es[j].t = v}}
                 IN IF W = {} THEN INF ELSE CHOOSE w \in W : \A x \in W : w <= x
PathCost(G, p) == FoldLeft(LAMBDA acc, i : LET b == Best(G, p[i], p[i+1]) IN IF acc = INF \/ b = INF THEN INF ELSE acc + b, 0, [i \in 1..(Len(p) - 1) |-> i])

\* what a distance-limited search for goals must deliver (lim < 0: unlimited); paths: set of vertex sequences
PathsOk(G, s, goals, lim, tol, paths) ==
  LET d == DistFrom(G, s)
      within == {g \in goals : d[g] < INF /\ (lim < 0 \/ d[g] <= lim)}
  IN /\ \A p \in SetOf2(paths) : Len(p) > 0 /\ p[1] = s /\ \A i \in 1..Len(p) : p[i] \in Vs(G)
     /\ {p[Len(p)] : p \in SetOf2(paths)} = within
     /\ Len(paths) = Cardinality(within)
     /\ \A p \in SetOf2(paths) : PathCost(G, p) - d[p[Len(p)]] \in 0..tol

\* a route is a sequence of edge numbers
RouteOk(G, p, r) ==
  /\ Len(r) = Len(p) - 1
  /\ \A i \in 1..Len(r) : r[i] \in 1..Len(G.es) /\ G.es[r[i]].s = p[i] /\ G.es[r[i]].t = p[i+1]
                          /\ G.es[r[i]].w = Best(G, p[i], p[i+1])

(* ---- traversals: the log of visitor callbacks is a run of this machine ---- *)
\* st = [seen |-> Seq of discovered, todo |-> Seq of discovered not examined, cur |-> examined vertex or 0,
\*       left |-> edges of cur not yet examined, last |-> last examined edge or 0, done |-> set of finished]
TInit == [seen |-> <<>>, todo |-> <<>>, cur |-> 0, left |-> {}, last |-> 0, done |-> {}, ok |-> TRUE]
InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x
TStep(G, s, kind, st, e) ==
  LET bad == [st EXCEPT !.ok = FALSE] IN
  IF ~st.ok THEN st
  ELSE CASE e[1] = "d" ->
              IF InSeq(st.seen, e[2]) THEN bad
              ELSE IF st.seen = <<>> THEN (IF e[2] = s THEN [st EXCEPT !.seen = <<s>>, !.todo = <<s>>] ELSE bad)
              ELSE IF st.last # 0 /\ G.es[st.last].t = e[2] /\ st.cur = G.es[st.last].s
                   THEN [st EXCEPT !.seen = Append(@, e[2]), !.todo = Append(@, e[2]), !.last = 0] ELSE bad
         [] e[1] = "x" ->
              IF st.cur # 0 \/ st.todo = <<>> THEN bad
              ELSE LET next == IF kind = "bfs" THEN Head(st.todo) ELSE st.todo[Len(st.todo)] IN
                   IF e[2] # next THEN bad
                   ELSE [st EXCEPT !.cur = next, !.left = Out(G, next), !.last = 0,
                                   !.todo = IF kind = "bfs" THEN Tail(@) ELSE SubSeq(@, 1, Len(@) - 1)]
         [] e[1] = "e" ->
              IF e[2] \in st.left THEN [st EXCEPT !.left = @ \ {e[2]}, !.last = e[2]] ELSE bad
         [] e[1] = "f" ->
              IF st.cur # e[2] \/ st.left # {} THEN bad
              ELSE [st EXCEPT !.cur = 0, !.last = 0, !.done = @ \cup {e[2]}]
         [] OTHER -> bad
\* stop = 0: ran to the end; stop = k: the visitor asked to stop when finishing its k-th vertex
TraversalOk(G, s, kind, stop, log) ==
  LET st == FoldLeft(LAMBDA a, e : TStep(G, s, kind, a, e), TInit, log) IN
  /\ st.ok /\ st.cur = 0
  /\ IF stop = 0 \/ stop > Cardinality(Reach(G, s))
     THEN SetOf2(st.seen) = Reach(G, s) /\ st.done = Reach(G, s)
     ELSE Cardinality(st.done) = stop
=============================================================================
