------------------------------ MODULE RoutesMC ------------------------------
(* The mechanism behind the remembered routes (C18) on random small networks: queries between roads with different limits in any
   order; one search finds the routes to all nodes of the goal position within the limit and remembers them, a failed one
   remembers how far it looked. Every answer must be the one found without remembering anything.                         *)
EXTENDS Candidates, Json
CONSTANTS Problems, Width, Queries
VARIABLES G, ps, todo, cache, answer, asked
vars == <<G, ps, todo, cache, answer, asked>>
Rnd(x) == RandomElement(x)
GenPt(k) == <<Rnd(0..(Width + 0 * k)), Rnd(0..Width)>>
Legs(a, b, h) == NoRep(IF h THEN <<a, <<b[1], a[2]>>, b>> ELSE <<a, <<a[1], b[2]>>, b>>)
Rev(p) == [k \in 1..Len(p) |-> p[Len(p) + 1 - k]]
GenNet(n, m) ==
  LET ns == TLCEval([k \in 1..n |-> GenPt(k)])
      F[k \in 0..m] == IF k = 0 THEN <<>> ELSE
        LET a == Rnd(1..(n + 0 * k))  b == Rnd((1..n) \ {a})
            p == TLCEval(Legs(ns[a], ns[b], Rnd({TRUE, FALSE})))
            x == [s |-> a, t |-> b, p |-> p]
            y == [s |-> b, t |-> a, p |-> Rev(p)] IN
        IF Len(p) < 2 THEN F[k - 1] ELSE F[k - 1] \o (IF Rnd(1..2) = 1 THEN <<x>> ELSE <<x, y>>) IN
  TLCEval([ns |-> ns, es |-> F[m]])
\* from road x at position f to road y at the other position; half limits, < 0: none
GenQuery(k, m) == LET f == Rnd({0, 1} \cup {0 * k}) IN [f |-> f, x |-> Rnd(1..m), y |-> Rnd(1..m), f2 |-> Rnd({-1, 0, 1, 2, 3, 4}), astar |-> Rnd({TRUE, FALSE})]
Init == /\ \E k \in 1..Problems : \E g \in {GenNet(Rnd(2..(4 + 0 * k)), Rnd(2..4))} :
             /\ g.es # <<>> /\ G = g
             /\ \E q \in {[j \in 1..2 |-> GenPt(j + k)]} : ps = q
             /\ todo = TLCEval([j \in 1..Queries |-> GenQuery(j + k, Len(g.es))])
        /\ cache = <<>> /\ answer = <<>> /\ asked = 1
Q == todo[asked]
From == G.es[Q.x].t
To == G.es[Q.y].s
Limit == IF Q.f2 < 0 THEN Far
         ELSE LET m == IF Q.astar THEN Sq(G.ns[From], G.ns[To]) ELSE MaxOf({Sq(G.ns[From], G.ns[v]) : v \in UNION {{r.s, r.t} : r \in SetOf(G.es)}}) IN
              Q.f2 * Q.f2 * m                                    \* compares with 4 d d
Within(d, lim) == d < Far /\ (d = 0 \/ lim = Far \/ 4 * d * d <= lim)
Known == DOMAIN cache
Key2 == <<From, To>>
Answer(a) == answer' = Append(answer, a) /\ asked' = asked + 1 /\ UNCHANGED <<G, ps, todo>>
Remembered == asked <= Queries /\ Key2 \in Known /\ cache[Key2].found
              /\ Answer(IF Within(cache[Key2].d, Limit) THEN cache[Key2].d ELSE Far) /\ UNCHANGED cache
GivenUp == asked <= Queries /\ Key2 \in Known /\ ~cache[Key2].found /\ Limit <= cache[Key2].d /\ Answer(Far) /\ UNCHANGED cache
Goals == IF Q.astar THEN {To} ELSE UNION {{r.s, r.t} : r \in SetOf(G.es)}
Anew == /\ asked <= Queries /\ (IF Key2 \in Known THEN ~cache[Key2].found /\ Limit > cache[Key2].d ELSE TRUE)
        /\ LET D == TLCEval(DistFrom(G, From))
               hit == {v \in Goals : Within(D[v], Limit)}
               new == {<<From, v>> : v \in {w \in hit : IF <<From, w>> \in Known THEN ~cache[<<From, w>>].found ELSE TRUE}}
               all == new \cup {Key2} IN
           /\ cache' = [k \in Known \cup all |-> IF k \in new THEN [found |-> TRUE, d |-> D[k[2]]]
                                                 ELSE IF k = Key2 THEN [found |-> FALSE, d |-> Limit] ELSE cache[k]]
           /\ Answer(IF To \in hit THEN D[To] ELSE Far)
Next == Remembered \/ GivenUp \/ Anew
Spec == Init /\ [][Next]_vars
\* the last answer is the one a search on its own gives
Truthful == asked > 1 => LET q == todo[asked - 1]  u == G.es[q.x].t  v == G.es[q.y].s
                             x == [e |-> q.x, p |-> <<0, 0>>]  y == [e |-> q.y, p |-> <<1, 0>>]
                             goals == UNION {{r.s, r.t} : r \in SetOf(G.es)}
                             d == DistFrom(G, u)[v] IN
            answer[asked - 1] = (IF d < Far /\ (d = 0 \/ InLimit(G, x, y, goals, q.astar, q.f2, d)) THEN d ELSE Far)
\* what is remembered stays true
Sound == \A k \in Known : cache[k].found => cache[k].d = DistFrom(G, k[1])[k[2]]
Kept == [][\A k \in Known : cache[k].found => cache'[k] = cache[k]]_cache
Emit == asked = 1 => PrintT("@@" \o ToJson([ns |-> G.ns, es |-> G.es, ps |-> ps, qs |-> todo]))
=============================================================================
