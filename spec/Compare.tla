------------------------------ MODULE Compare ------------------------------
(* Comparing a ground truth with a match (C12): lines on the lattice 0..4 x 0..4, walked in directed elementary steps.
   Lengths in 1/1000 of the lattice unit, fractions in 1/1000.                                                       *)
EXTENDS RichLine, FiniteSets
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Walked(p, q) ==           \* the elementary steps from p to q
  IF p = q THEN <<>> ELSE
  LET g == Gcd(Abs(q[1] - p[1]), Abs(q[2] - p[2]))  x == (q[1] - p[1]) \div g  y == (q[2] - p[2]) \div g IN
  [i \in 1..g |-> <<<<p[1] + (i - 1) * x, p[2] + (i - 1) * y>>, <<p[1] + i * x, p[2] + i * y>>>>]
RECURSIVE StepsOf(_)      \* of a line
StepsOf(p) == IF Len(p) < 2 THEN <<>> ELSE Walked(p[1], p[2]) \o StepsOf(Tail(p))
RECURSIVE StepsOfAll(_)   \* of several lines, nothing is walked between them
StepsOfAll(ls) == IF ls = <<>> THEN <<>> ELSE StepsOf(ls[1]) \o StepsOfAll(Tail(ls))
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SetOf(s) == {s[i] : i \in 1..Len(s)}
StepLen(x) == (Dst(x[1], x[2]) + 5) \div 10
RECURSIVE Metres(_)
Metres(s) == IF s = <<>> THEN 0 ELSE StepLen(s[1]) + Metres(Tail(s))

\* what is walked in both is correct, what is walked more often in the ground truth is missed, in the match added
Accounted(a, b, c, miss, add) ==
  \A x \in SetOf(a) \cup SetOf(b) \cup SetOf(c) \cup SetOf(miss) \cup SetOf(add) :
    LET m == Min(Times(a, x), Times(b, x)) IN
    Times(c, x) = m /\ Times(miss, x) = Times(a, x) - m /\ Times(add, x) = Times(b, x) - m
=============================================================================
