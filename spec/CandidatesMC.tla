---------------------------- MODULE CandidatesMC ----------------------------
(* The mechanism behind C14 on random small networks: at every position look within a radius that is doubled until a road is
   found, or take the nearest segments, join neighbouring roads, then let positions adopt each other's candidates. The outcome is
   judged by Candidates.tla.                                                                                             *)
EXTENDS Candidates, Json
CONSTANTS Problems, Width, Positions
VARIABLES G, ps, s, phase, i, R, N, cs
vars == <<G, ps, s, phase, i, R, N, cs>>
Rnd(x) == RandomElement(x)
At0 == [e |-> 0]
\* roads between nodes in two legs, forth and maybe back
GenPt(k) == <<Rnd(0..(Width + 0 * k)), Rnd(0..Width)>>
Legs(a, b, h) == NoRep(IF h THEN <<a, <<b[1], a[2]>>, b>> ELSE <<a, <<a[1], b[2]>>, b>>)
Rev(p) == [k \in 1..Len(p) |-> p[Len(p) + 1 - k]]
GenNet(n, m) ==
  LET ns == TLCEval([k \in 1..n |-> GenPt(k)])
      F[k \in 0..m] == IF k = 0 THEN <<>> ELSE
        LET a == Rnd(1..(n + 0 * k))  b == Rnd((1..n) \ {IF n = 1 THEN 0 ELSE a})
            p == TLCEval(LET q == Legs(ns[a], ns[b], Rnd({TRUE, FALSE})) IN IF Len(q) = 1 THEN <<q[1], q[1]>> ELSE q)
            x == [s |-> a, t |-> b, p |-> p]
            y == [s |-> b, t |-> a, p |-> Rev(p)] IN
        F[k - 1] \o (IF Rnd(1..3) = 1 THEN <<x>> ELSE <<x, y>>) IN
  TLCEval([ns |-> ns, es |-> F[m]])
GenTrack(n) == LET F[k \in 1..n] == IF k = 1 THEN <<GenPt(k)>> ELSE
                     LET f == F[k - 1] IN
                     Append(f, IF Rnd(1..8) = 1 THEN f[k - 1] ELSE LET q == GenPt(k) IN IF Rnd({TRUE, FALSE}) THEN <<q[1], f[k - 1][2]>> ELSE <<f[k - 1][1], q[2]>>) IN
               TLCEval(F[n])
GenSet(k) == LET r == Rnd(1..(4 + 0 * k)) IN
  TLCEval([kind |-> Rnd({"circle", "nearest", "combined", "next"}), k |-> Rnd({1, 2, 3, 5, 8}), r |-> r, lo |-> Rnd(0..r), hi |-> r + Rnd({0, 1, 3, 6, 12}),
   ad |-> Rnd({TRUE, FALSE}), si |-> Rnd({TRUE, FALSE}), ne |-> Rnd({TRUE, FALSE}), re |-> Rnd({TRUE, FALSE})])
Init == /\ \E k \in 1..Problems : \E g \in {GenNet(Rnd(2..(4 + 0 * k)), Rnd(1..3))} : \E q \in {GenTrack(Rnd(1..Positions))} : \E x \in {GenSet(k)} :
             G = g /\ ps = q /\ s = x
        /\ phase = "look" /\ i = 1 /\ R = 0 /\ N = {} /\ cs = <<>>
Radial == s.kind \in {"circle", "combined"}
Q == ps[i]
D == Dists(G, Q)
All == TLCEval({n \in SUBSET Roads(G) : Cardinality(n) <= s.k \/ s.k >= Cardinality(AllSegs(G))})
Look == /\ phase = "look" /\ i <= Len(ps)
        /\ \E n \in IF s.kind = "circle" THEN {Roads(G)} ELSE {x \in All : NearestOk(G, SegDists(G, Q), s.k, x)} : N' = n
        /\ R' = FirstRadius(ps, i, s) /\ phase' = (IF Radial THEN "fit" ELSE IF s.kind = "next" THEN "next" ELSE "take")
        /\ UNCHANGED <<G, ps, s, i, cs>>
Fitting == {e \in N : D[e] <= R * R}
Double == phase = "fit" /\ Fitting = {} /\ R < s.hi /\ R' = Min(IF R = 0 THEN 1 ELSE 2 * R, s.hi) /\ UNCHANGED <<G, ps, s, phase, i, N, cs>>
Fit == phase = "fit" /\ (Fitting # {} \/ R >= s.hi) /\ N' = Fitting /\ phase' = "take" /\ UNCHANGED <<G, ps, s, i, R, cs>>
Join == phase = "next" /\ N' = WithNext(G, D, N) /\ phase' = "take" /\ UNCHANGED <<G, ps, s, i, R, cs>>
\* the closest point of the road, split there at any place where the road passes it
Closest(e) == LET p == G.es[e].p IN {Foot(p[k], p[k + 1], Q) : k \in {j \in Segs(p) : SegD(p[j], p[j + 1], Q) = D[e]}}
Cand(e) == LET p == G.es[e].p  x == CHOOSE y \in Closest(e) : TRUE  d == CHOOSE y \in Places(p, x) : TRUE IN
           [e |-> e, a |-> FALSE, p |-> x, d |-> D[e], f |-> Part(p, 0, d), t |-> Part(p, d, Total(p)), fl |-> d, tl |-> Total(p) - d]
RECURSIVE Ordered(_)
Ordered(z) == IF z = {} THEN <<>> ELSE LET x == CHOOSE y \in z : \A w \in z : y.d <= w.d IN <<x>> \o Ordered(z \ {x})
Take == /\ phase = "take"
        /\ cs' = Append(cs, [ix |-> i - 1, eq |-> (i < Len(ps) /\ ps[i] = ps[Min(i + 1, Len(ps))]), es |-> {Cand(e) : e \in {x \in N : HasLen(G.es[x].p)}}])
        /\ i' = (IF i = Len(ps) THEN 1 ELSE i + 1) /\ phase' = (IF i = Len(ps) THEN "near" ELSE "look") /\ R' = 0 /\ N' = {}
        /\ UNCHANGED <<G, ps, s>>
\* adoption: es are sets here
Owned(k) == {x \in cs[k].es : ~x.a}
Adopted(z, q, X) == z \cup {[x EXCEPT !.a = TRUE, !.d = Sq(q, x.p)] : x \in {y \in X : \A w \in z : Key(w) # Key(y)}}
Largest == IF cs[i].es = {} THEN 0 ELSE MaxOf({x.d : x \in cs[i].es})
Near == /\ phase = "near"
        /\ LET m == Largest
               hit(j) == {x \in Owned(j) : j # i /\ m > 0 /\ Reaches(Q, ps[j], x.p, m) \in {"yes", "tie"}} IN
           cs' = IF ~s.ne THEN cs
                 ELSE [j \in 1..Len(cs) |-> [cs[j] EXCEPT !.es = IF j = i THEN Adopted(@, Q, UNION {hit(k) : k \in 1..Len(cs)})
                                                                 ELSE IF s.re /\ hit(j) # {} THEN Adopted(@, ps[j], Owned(i)) ELSE @]]
        /\ i' = (IF i = Len(ps) THEN 1 ELSE i + 1) /\ phase' = (IF i = Len(ps) THEN "sibling" ELSE "near")
        /\ UNCHANGED <<G, ps, s, R, N>>
Sibl == /\ phase = "sibling"
        /\ cs' = IF ~s.si THEN cs ELSE [cs EXCEPT ![i].es = Adopted(@, Q, UNION {Owned(k) : k \in {i - 1, i + 1} \cap (1..Len(ps))})]
        /\ i' = (IF i = Len(ps) THEN 1 ELSE i + 1) /\ phase' = (IF i = Len(ps) THEN "done" ELSE "sibling")
        /\ UNCHANGED <<G, ps, s, R, N>>
Next == Look \/ Double \/ Fit \/ Join \/ Take \/ Near \/ Sibl
Spec == Init /\ [][Next]_vars
Nodes(k) == Ordered({[v |-> v, d |-> Sq(ps[k], G.ns[v])] : v \in UNION {{G.es[x.e].s, G.es[x.e].t} : x \in cs[k].es}})
Result == [k \in 1..Len(cs) |-> [ix |-> cs[k].ix, eq |-> cs[k].eq, es |-> Ordered(cs[k].es), vs |-> Nodes(k)]]
Finds == phase = "done" => RightSearch(G, ps, s, Result)
\* no position goes without candidate while a road is within the limit
Covered == phase = "done" => \A k \in 1..Len(ps) : Owned(k) = {} =>
             \A e \in Roads(G) : HasLen(G.es[e].p) /\ Radial => LineD(G.es[e].p, ps[k]) > s.hi * s.hi \/ (\E f \in Roads(G) : ~HasLen(G.es[f].p))
Limited == \A k \in 1..Len(cs) : Radial => \A x \in Owned(k) : x.d <= s.hi * s.hi
\* adopting takes nothing away and turns nothing of one's own into a foreign candidate
Keeps == [][\A k \in 1..Len(cs) : {x \in cs[k].es : ~x.a} \subseteq {x \in cs'[k].es : ~x.a} /\ cs[k].es \subseteq cs'[k].es]_cs
Ends == <>(phase = "done")
Emit == phase = "look" /\ i = 1 /\ cs = <<>> => PrintT("@@" \o ToJson([ns |-> G.ns, es |-> G.es, ps |-> ps, s |-> s]))
=============================================================================
