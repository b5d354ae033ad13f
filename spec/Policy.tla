------------------------------- MODULE Policy -------------------------------
(* Choosing candidates (C13).
   Hidden Markov model: obs[t][g] is the score of candidate g at position t, tr[t][g][s] that of coming there from s at the
   position before (tr[1][g][1]: of starting there); No marks what is impossible.
   Decision process: m[s] = [pos, acts], an action leads to state n, gives reward r, may end, and chooses edge e of the
   position (-1: nothing to choose, -2: given up). Rewards are integers, values in 1/10000, the discount in 1/100.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
No == -1000000
Plus(a, b) == IF a = No \/ b = No THEN No ELSE a + b
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
\* positions without candidates at the start are left out
RECURSIVE StartAt(_, _)
StartAt(h, t) == IF t > Len(h.obs) THEN 0 ELSE IF Len(h.obs[t]) > 0 THEN t ELSE StartAt(h, t + 1)
Start(h) == StartAt(h, 1)
First(h, t, g) == Plus(IF t = 1 THEN h.tr[1][g][1] ELSE 0, h.obs[t][g])
RECURSIVE ScoreTo(_, _, _)      \* of the choices q for Start(h) .. , the last at position t
ScoreTo(h, q, t) ==
  IF Len(q) = 1 THEN First(h, t, q[1])
  ELSE Plus(ScoreTo(h, SubSeq(q, 1, Len(q) - 1), t - 1), Plus(h.tr[t][q[Len(q)]][q[Len(q) - 1]], h.obs[t][q[Len(q)]]))
Score(h, q) == ScoreTo(h, q, Len(h.obs))
RECURSIVE Forward(_, _)         \* best score of ending in each candidate of position t
Forward(h, t) ==
  IF t = Start(h) THEN [g \in 1..Len(h.obs[t]) |-> First(h, t, g)]
  ELSE LET f == TLCEval(Forward(h, t - 1)) IN
       [g \in 1..Len(h.obs[t]) |->
          IF Len(f) = 0 THEN No ELSE MaxOf({Plus(f[s], Plus(h.tr[t][g][s], h.obs[t][g])) : s \in 1..Len(f)})]
Best(h) == IF Start(h) = 0 THEN No ELSE LET f == TLCEval(Forward(h, Len(h.obs))) IN
           IF Len(f) = 0 THEN No ELSE MaxOf({f[g] : g \in 1..Len(f)})
\* policy: pairs (position, candidate), both from 0
Chosen(h, p) == [k \in 1..Len(p) |-> p[k][2] + 1]
HmmRight(h, p, slack) ==
  IF Best(h) # No
  THEN /\ Len(p) = Len(h.obs) - Start(h) + 1
       /\ \A k \in 1..Len(p) : p[k][1] = Start(h) + k - 2 /\ p[k][2] \in 0..(Len(h.obs[Start(h) + k - 1]) - 1)
       /\ LET v == Score(h, Chosen(h, p)) IN v # No /\ v >= Best(h) - slack
  \* nothing goes all the way: nothing impossible is chosen
  ELSE \A k \in 1..Len(p) : /\ p[k][1] \in 0..(Len(h.obs) - 1) /\ p[k][2] \in 0..(Len(h.obs[p[k][1] + 1]) - 1)
                            /\ h.obs[p[k][1] + 1][p[k][2] + 1] # No
                            /\ (k > 1 => p[k - 1][1] < p[k][1] /\
                                 (p[k - 1][1] + 1 = p[k][1] => h.tr[p[k][1] + 1][p[k][2] + 1][p[k - 1][2] + 1] # No))

Cut(d, v) == (d * v) \div 100
TopOf(n, F(_)) == LET RECURSIVE T(_) T(i) == IF i = 1 THEN F(1) ELSE LET x == T(i - 1)  y == F(i) IN IF x < y THEN y ELSE x IN T(n)
ValueIn(m, d, u) ==             \* what can be had from each state, at best, in 1/u; no way leads back to a state
  LET Better(f) == [s \in 1..Len(m) |-> LET G(a) == m[s].acts[a].r * u + (IF m[s].acts[a].d THEN 0 ELSE Cut(d, f[m[s].acts[a].n])) IN TopOf(Len(m[s].acts), G)]
      RECURSIVE Fix(_)
      Fix(f) == LET g == TLCEval(Better(f)) IN IF g = f THEN f ELSE Fix(g)
  IN Fix([s \in 1..Len(m) |-> 0])
Value(m, d) == ValueIn(m, d, 10000)
\* what the choices p, k.. can give from s, if they belong to actions from s; a position given up repeats the choice before
Dead == -1000000000
RECURSIVE FollowIn(_, _, _, _, _, _)
FollowIn(m, d, p, s, k, u) ==
  MaxOf({Dead} \cup {LET x == m[s].acts[a]
                         ok == IF x.e >= 0 THEN k <= Len(p) /\ p[k] = <<m[s].pos, x.e>>
                               ELSE IF k = 1 THEN TRUE ELSE k <= Len(p) /\ p[k] = p[k - 1]
                         j == IF x.e >= 0 \/ k > 1 THEN k + 1 ELSE k
                         rest == IF x.d THEN (IF j = Len(p) + 1 THEN 0 ELSE Dead) ELSE FollowIn(m, d, p, x.n, j, u) IN
                     IF ~ok \/ rest = Dead THEN Dead ELSE x.r * u + Cut(d, rest) : a \in 1..Len(m[s].acts)})
Follow(m, d, p, s, k) == FollowIn(m, d, p, s, k, 10000)
MdpRight(m, d, p, slack) == LET v == Follow(m, d, p, 1, 1) IN v # Dead /\ v >= Value(m, d)[1] - slack
MdpPossible(m, d, p) == Follow(m, d, p, 1, 1) # Dead
=============================================================================
