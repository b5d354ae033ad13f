------------------------------ MODULE PolicyMC ------------------------------
(* The mechanisms behind C13 on random small problems: the forward pass with back pointers, repeated updates of state values in
   any order, and alternating evaluation and improvement. What they choose is judged by Policy.tla and by trying everything. *)
EXTENDS Policy, Json
CONSTANTS Problems, Positions, Cands
VARIABLES h, m, d, mode, t, val, ptr, v, pol
vars == <<h, m, d, mode, t, val, ptr, v, pol>>
Rnd(s) == RandomElement(s)
Scores == {-4, -3, -2, -1, 0, 0, No}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
GenH(c) == TLCEval([obs |-> [p \in 1..Len(c) |-> [g \in 1..c[p] |-> Rnd(-4..0)]],
                    tr |-> [p \in 1..Len(c) |-> [g \in 1..c[p] |-> [s \in 1..(IF p = 1 THEN 1 ELSE c[p - 1]) |-> IF p = 1 THEN -1 ELSE Rnd({-5, -4, -3, -2, -1, 0, No})]]]])
\* states (p, b): at position p, b chosen before (0: none); an impossible way gives up and stays at p without a choice before
Offs(c, p) == IF p = 1 THEN 0 ELSE LET f[k \in 1..(p - 1)] == IF k = 1 THEN 1 ELSE f[k - 1] + c[k - 1] + 1 IN f[p - 1]
StateNo(c, p, b) == Offs(c, p) + b + 1
GenM(c) == TLCEval(Flat([p \in 1..Len(c) |-> [b1 \in 1..(IF p = 1 THEN 1 ELSE c[p - 1] + 1) |->
             [pos |-> p - 1, acts |-> [a \in 1..c[p] |->
                LET bad == b1 > 1 /\ Rnd(1..4) = 1 IN TLCEval(
                IF bad THEN [n |-> StateNo(c, p, 0), r |-> Rnd(-9..-3), d |-> FALSE, e |-> -2]
                ELSE IF p = Len(c) THEN [n |-> 0, r |-> Rnd(-6..0), d |-> TRUE, e |-> a - 1]
                ELSE [n |-> StateNo(c, p + 1, a), r |-> Rnd(-6..0), d |-> FALSE, e |-> a - 1])]]]]))
Init == /\ \E k \in 1..Problems :
             \E c \in {TLCEval([p \in 1..Rnd(1..Positions) |-> Rnd(0..Cands)])} : \E x \in {GenH(c)} :
             \E b \in {TLCEval([p \in 1..Rnd(1..Positions) |-> Rnd(1..Cands)])} : \E y \in {GenM(b)} :
             /\ h = x /\ m = y /\ d \in {Rnd({50, 90, 99, 100})}
        /\ mode \in {"hmm", "value", "policy"} /\ t = 0 /\ val = <<>> /\ ptr = <<>>
        /\ v = [s \in 1..Len(m) |-> 0] /\ pol = [s \in 1..Len(m) |-> 1]
\* one position further, the first of equally good ways stays
Pass == /\ mode = "hmm" /\ Start(h) # 0 /\ t < Len(h.obs)
        /\ LET p == IF t = 0 THEN Start(h) ELSE t + 1
               n == Len(h.obs[p]) IN
           IF t = 0 THEN /\ val' = [g \in 1..n |-> First(h, p, g)] /\ ptr' = [q \in 1..p |-> [g \in 1..Len(h.obs[q]) |-> 0]] /\ t' = p
           ELSE LET w(g, s) == Plus(val[s], Plus(h.tr[p][g][s], h.obs[p][g]))
                    best(g) == {s \in 1..Len(val) : w(g, s) # No /\ \A q \in 1..Len(val) : w(g, q) <= w(g, s)}
                    k(g) == IF best(g) = {} THEN 0 ELSE CHOOSE s \in best(g) : \A q \in best(g) : s <= q IN
                /\ ptr' = Append(ptr, [g \in 1..n |-> k(g)]) /\ val' = [g \in 1..n |-> IF k(g) = 0 THEN No ELSE w(g, k(g))] /\ t' = p
        /\ UNCHANGED <<h, m, d, mode, v, pol>>
RECURSIVE Back(_, _)
Back(p, g) == IF p < Start(h) \/ g = 0 THEN <<>> ELSE Back(p - 1, ptr[p][g]) \o <<<<p - 1, g - 1>>>>
HmmDone == mode = "hmm" /\ (Start(h) = 0 \/ t = Len(h.obs))
HmmChoice == IF Start(h) = 0 THEN <<>> ELSE
             LET b == {g \in 1..Len(val) : val[g] # No /\ \A q \in 1..Len(val) : val[q] <= val[g]} IN
             IF b = {} THEN <<>> ELSE Back(Len(h.obs), CHOOSE g \in b : \A q \in b : g <= q)
Gain(s, a) == LET x == m[s].acts[a] IN x.r * 10000 + (IF x.d THEN 0 ELSE Cut(d, v[x.n]))
Top(s) == CHOOSE a \in 1..Len(m[s].acts) : \A b \in 1..Len(m[s].acts) : Gain(s, b) < Gain(s, a) \/ (Gain(s, b) = Gain(s, a) /\ a <= b)
Update == /\ mode = "value" /\ \E s \in 1..Len(m) : v[s] # Gain(s, Top(s)) /\ v' = [v EXCEPT ![s] = Gain(s, Top(s))]
          /\ UNCHANGED <<h, m, d, mode, t, val, ptr, pol>>
ValueDone == mode = "value" /\ \A s \in 1..Len(m) : v[s] = Gain(s, Top(s))
Unsettled == {s \in 1..Len(m) : v[s] # Gain(s, pol[s])}
Evaluate == /\ mode = "policy" /\ Unsettled # {}
            /\ LET s == CHOOSE s \in Unsettled : \A q \in Unsettled : q <= s IN v' = [v EXCEPT ![s] = Gain(s, pol[s])]
            /\ UNCHANGED <<h, m, d, mode, t, val, ptr, pol>>
Improve == /\ mode = "policy" /\ Unsettled = {} /\ \E s \in 1..Len(m) : pol[s] # Top(s)
           /\ pol' = [s \in 1..Len(m) |-> Top(s)] /\ UNCHANGED <<h, m, d, mode, t, val, ptr, v>>
PolicyDone == mode = "policy" /\ Unsettled = {} /\ \A s \in 1..Len(m) : pol[s] = Top(s)
Next == Pass \/ Update \/ Evaluate \/ Improve
Spec == Init /\ [][Next]_vars
RECURSIVE Greedy(_, _)          \* what is chosen on the way, a position given up repeats the choice before
Greedy(s, p) == LET x == m[s].acts[IF mode = "policy" THEN pol[s] ELSE Top(s)]
                    q == IF x.e >= 0 THEN Append(p, <<m[s].pos, x.e>>) ELSE IF p = <<>> THEN p ELSE Append(p, p[Len(p)]) IN
                IF x.d THEN q ELSE Greedy(x.n, q)
\* all ways to choose, for comparison
RECURSIVE Ways(_)
Ways(p) == IF p > Len(h.obs) THEN {<<>>} ELSE {<<g>> \o w : g \in 1..Len(h.obs[p]), w \in Ways(p + 1)}
Tried == LET w == Ways(Start(h)) IN IF w = {} THEN No ELSE MaxOf({Score(h, q) : q \in w})
HmmHolds == HmmDone => (Start(h) = 0 \/ Best(h) = Tried) /\ HmmRight(h, HmmChoice, 0)
MdpHolds == (ValueDone \/ PolicyDone) => MdpRight(m, d, Greedy(1, <<>>), 40)
\* no state is valued beyond what can be had
NotBelow == mode = "value" => LET f == Value(m, d) IN \A s \in 1..Len(m) : v[s] >= f[s] - 20
Emit == t = 0 /\ v = [s \in 1..Len(m) |-> 0] => PrintT("@@" \o ToJson([h |-> h, m |-> m, d |-> d, mode |-> mode]))
=============================================================================
