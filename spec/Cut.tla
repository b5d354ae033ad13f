-------------------------------- MODULE Cut --------------------------------
(* Simplifying and cutting lines (C11).
   Simplifying: points on the lattice 0..4 x 0..4, tolerance in tenths (0 stands for practically none).
   Cutting: segments of whole length (parallel to the axes, or 3-4-5 triangles), cut points in 1/1000.              *)
EXTENDS RichLine, FiniteSets

\* ---- simplification
Sq(p, q) == (q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])
Far(p, a, b, t) ==        \* p is further than t from the stretch between a and b
  IF a = b THEN 100 * Sq(p, a) > t * t
  ELSE LET d == (b[1] - a[1]) * (p[1] - a[1]) + (b[2] - a[2]) * (p[2] - a[2])
           c == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1]) IN
       IF d <= 0 THEN 100 * Sq(p, a) > t * t ELSE IF d >= Sq(a, b) THEN 100 * Sq(p, b) > t * t
       ELSE 100 * c * c > t * t * Sq(a, b)
\* where the line turns around: the positions of its turning point (the point may be repeated); rev in degrees, 0: practically none
Prev(p, i) == CHOOSE j \in 0..(i - 1) : (j = 0 \/ p[j] # p[i]) /\ \A k \in (j + 1)..(i - 1) : p[k] = p[i]
Succ(p, i) == CHOOSE j \in (i + 1)..(Len(p) + 1) : (j = Len(p) + 1 \/ p[j] # p[i]) /\ \A k \in (i + 1)..(j - 1) : p[k] = p[i]
Turns(p, i, rev) == /\ Prev(p, i) > 0 /\ Succ(p, i) <= Len(p)
                    /\ LET t == Turn(Azi(p[Prev(p, i)], p[i]), Azi(p[i], p[Succ(p, i)])) IN
                       IF rev = 0 THEN Around(t) ELSE Abs(t) > (180 - rev) * 1000
TurnsOf(p, rev) == {(Prev(p, i) + 1)..(Succ(p, i) - 1) : i \in {j \in 1..Len(p) : Turns(p, j, rev)}}
\* a choice of kept positions is right: what is dropped is close, what has to be kept is kept, what is close all along is dropped
NextIn(k, i) == CHOOSE j \in k : j > i /\ ~\E m \in k : m > i /\ m < j
LastIn(k, i) == CHOOSE j \in k : j < i /\ ~\E m \in k : m < i /\ m > j
Close(p, a, b, t) == \A i \in (a + 1)..(b - 1) : ~Far(p[i], p[a], p[b], t)
RightChoice(p, k, t, groups) ==
  /\ {1, Len(p)} \subseteq k
  /\ \A g \in groups : g \cap k # {}
  /\ \A i \in 1..Len(p) : i \notin k => ~Far(p[i], p[LastIn(k, i)], p[NextIn(k, i)], t)
  /\ LET fixed == {g : g \in groups} \cup {{1}, {Len(p)}} IN
     \A g \in fixed, h \in fixed :
       LET a == CHOOSE x \in g : \A y \in g : y <= x
           b == CHOOSE x \in h : \A y \in h : y >= x IN
       (a < b /\ ~(\E f \in fixed : \E x \in f : a < x /\ x < b) /\ Close(p, a, b, t)) => \A i \in k : ~(a < i /\ i < b)
Pick(p, k) == LET RECURSIVE F(_) F(i) == IF i > Len(p) THEN <<>> ELSE (IF i \in k THEN <<p[i]>> ELSE <<>>) \o F(i + 1) IN F(1)
Simplified(p, out, t, groups) ==
  IF Len(p) < 3 THEN out = p
  ELSE \E k \in SUBSET (1..Len(p)) : Cardinality(k) = Len(out) /\ {1, Len(p)} \subseteq k /\ Pick(p, k) = out /\ RightChoice(p, k, t, groups)

\* ---- cutting
Leg(p, q) == LET x == Abs(q[1] - p[1])  y == Abs(q[2] - p[2]) IN
             IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE IF 4 * x = 3 * y THEN (5 * y) \div 4 ELSE (5 * x) \div 4
Pos(p, i) == LET RECURSIVE S(_) S(j) == IF j <= 1 THEN 0 ELSE S(j - 1) + Leg(p[j - 1], p[j]) IN S(i)
Total(p) == Pos(p, Len(p))
Th(p) == <<1000 * p[1], 1000 * p[2]>>
At(p, d) ==               \* the point at position d, 0 <= d <= Total(p)
  LET i == CHOOSE j \in 1..Len(p) : Pos(p, j) <= d /\ \A k \in (j + 1)..Len(p) : Pos(p, k) > d IN
  IF Pos(p, i) = d THEN Th(p[i])
  ELSE LET a == p[i]  b == p[i + 1]  m == Leg(a, b)  r == d - Pos(p, i) IN
       <<1000 * a[1] + ((b[1] - a[1]) * r * 1000) \div m, 1000 * a[2] + ((b[2] - a[2]) * r * 1000) \div m>>
RECURSIVE NoRep(_)
NoRep(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN NoRep(Tail(s)) ELSE <<s[1]>> \o NoRep(Tail(s))
Mid(p, a, b) == LET RECURSIVE F(_) F(i) == IF i > Len(p) THEN <<>> ELSE (IF a < Pos(p, i) /\ Pos(p, i) < b THEN <<Th(p[i])>> ELSE <<>>) \o F(i + 1) IN F(1)
Part(p, a0, b0) ==
  IF p = <<>> THEN <<>>
  ELSE LET a == Max(a0, 0)  b == Min(b0, Total(p)) IN
       IF a >= b THEN <<>> ELSE NoRep(<<At(p, a)>> \o Mid(p, a, b) \o <<At(p, b)>>)
\* the positions of a point on the line: on which segments, at which position
OnSeg(a, b, q) == LET c == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1]) IN
  /\ c = 0 /\ Min(a[1], b[1]) <= q[1] /\ q[1] <= Max(a[1], b[1]) /\ Min(a[2], b[2]) <= q[2] /\ q[2] <= Max(a[2], b[2])
Places(p, q) == {Pos(p, i) + Leg(p[i], q) : i \in {j \in 1..Segments(p) : OnSeg(p[j], p[j + 1], q)}}
                \cup {Pos(p, i) : i \in {j \in 1..Len(p) : p[j] = q}}
=============================================================================
