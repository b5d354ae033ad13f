------------------------------ MODULE SearchMC ------------------------------
(* The searches as the code performs them: a queue with lazy deletion, the *)
(* distance limit applied per edge, an arbitrary consistent heuristic.      *)
EXTENDS Search, Json
CONSTANTS N, MaxW, MaxLim, Share
VARIABLES G, s, goals, lim, h, dist, pred, black, queue, found, fin

Pairs == {<<a, b>> \in (1..N) \X (1..N) : a # b}
GraphOf(f) == [n |-> N, es |-> LET ps == SetToSeq({p \in Pairs : f[p] >= 0}) IN
                               [i \in 1..Len(ps) |-> [s |-> ps[i][1], t |-> ps[i][2], w |-> f[ps[i]]]]]
Consistent(g, hh, goal) == hh[goal] = 0 /\ \A i \in 1..Len(g.es) : hh[g.es[i].s] <= g.es[i].w + hh[g.es[i].t]
vars == <<G, s, goals, lim, h, dist, pred, black, queue, found, fin>>

Init == /\ G \in {GraphOf(f) : f \in [Pairs -> -1..MaxW]}
        /\ RandomElement(1..1000) <= Share
        /\ s = 1
        /\ goals \in SUBSET (1..N) /\ goals # {}
        /\ lim \in -1..MaxLim
        /\ IF Cardinality(goals) = 1 THEN h \in {x \in [1..N -> 0..1] : Consistent(G, x, CHOOSE g \in goals : TRUE)}
           ELSE h = [v \in 1..N |-> 0]
        /\ dist = [v \in 1..N |-> IF v = 1 THEN 0 ELSE INF]
        /\ pred = [v \in 1..N |-> v] /\ black = {} /\ found = {} /\ fin = FALSE
        /\ queue = {<<h[1], 0, 1>>}

RECURSIVE Relax(_, _, _, _, _, _)
Relax(es, i, u, d, p, q) ==
  IF i > Len(es) THEN [d |-> d, p |-> p, q |-> q]
  ELSE LET e == es[i]  nd == d[u] + e.w IN
       IF e.s = u /\ e.t \notin black /\ (lim < 0 \/ nd <= lim) /\ nd < d[e.t]
       THEN Relax(es, i + 1, u, [d EXCEPT ![e.t] = nd], [p EXCEPT ![e.t] = u], q \cup {<<nd + h[e.t], nd, e.t>>})
       ELSE Relax(es, i + 1, u, d, p, q)
Pop == /\ ~fin /\ queue # {}
       /\ \E x \in queue :
            /\ \A y \in queue : x[1] <= y[1]
            /\ LET r == Relax(G.es, 1, x[3], dist, pred, queue \ {x}) IN
               /\ dist' = r.d /\ pred' = r.p /\ queue' = r.q
               /\ black' = black \cup {x[3]}
               /\ found' = found \cup ({x[3]} \cap goals)
               /\ fin' = (found' = goals)
       /\ UNCHANGED <<G, s, goals, lim, h>>
Exhaust == ~fin /\ queue = {} /\ fin' = TRUE /\ UNCHANGED <<G, s, goals, lim, h, dist, pred, black, queue, found>>
Next == Pop \/ Exhaust
Spec == Init /\ [][Next]_vars

RECURSIVE PathTo(_)
PathTo(v) == IF pred[v] = v THEN <<v>> ELSE PathTo(pred[v]) \o <<v>>
FoundPaths == LET fs == SetToSeq(found) IN [i \in 1..Len(fs) |-> PathTo(fs[i])]
Correct == fin => PathsOk(G, s, goals, lim, 0, FoundPaths)
Emit == (fin' /\ ~fin /\ RandomElement(1..100) <= 20) => PrintT("@@" \o ToJson([n |-> G.n, es |-> G.es, goals |-> SetToSeq(goals), lim |-> lim]))
=============================================================================
