------------------------------ MODULE RichLine ------------------------------
(* Lines and the measures they remember (C09).
   A line is the sequence of its points; every measure is a function of these points, whatever produced the line.
   Points lie on the lattice 0..4 x 0..4, lengths are in 1/10000, angles in 1/1000 degrees (rounded).              *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
None == 999999999          \* there is no such measure
Range == 111111111         \* no such position

SQ == <<10000, 14142, 17321, 20000, 22361, 24495, 26458, 28284, 30000, 31623, 33166, 34641, 36056, 37417, 38730, 40000,
        41231, 42426, 43589, 44721, 45826, 46904, 47958, 48990, 50000, 50990, 51962, 52915, 53852, 54772, 55678, 56569>>
\* the angle of (s, g), 0 <= s <= g <= 4, against the axis of g
Oct(s, g) == CASE s = 0 -> 0 [] s = g -> 45000 [] s = 1 /\ g = 4 -> 14036 [] s = 1 /\ g = 3 -> 18435
               [] 2 * s = g -> 26565 [] s = 2 /\ g = 3 -> 33690 [] s = 3 /\ g = 4 -> 36870 [] OTHER -> None
Quarter(x, y) == IF x <= y THEN Oct(x, y) ELSE 90000 - Oct(y, x)          \* x, y >= 0, clockwise from north
Azi(p, q) == LET dx == q[1] - p[1]  dy == q[2] - p[2]
                 a == Quarter(Abs(dx), Abs(dy))
                 b == IF dy >= 0 THEN a ELSE 180000 - a IN
             IF dx >= 0 THEN b ELSE -b
Dst(p, q) == SQ[(q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2])]
\* turning angle between two azimuths, with sign; turning around has no definite sign
Turn(a, b) == LET d == a - b IN IF d > 180000 THEN d - 360000 ELSE IF d < -180000 THEN d + 360000 ELSE d
Around(d) == Abs(d) = 180000

Segments(p) == IF Len(p) < 2 THEN 0 ELSE Len(p) - 1
HasSeg(p, i) == p[i] # p[i + 1]
Lens(p) == [i \in 1..Segments(p) |-> IF HasSeg(p, i) THEN Dst(p[i], p[i + 1]) ELSE None]
Azis(p) == [i \in 1..Segments(p) |-> IF HasSeg(p, i) THEN Azi(p[i], p[i + 1]) ELSE None]
Dirs(p) == LET a == Azis(p) IN
           [i \in 1..(IF Segments(p) < 2 THEN 0 ELSE Segments(p) - 1) |->
              IF a[i] # None /\ a[i + 1] # None THEN Turn(a[i], a[i + 1]) ELSE None]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE (IF s[1] = None THEN 0 ELSE s[1]) + SumSeq(Tail(s))
AbsSeq(s) == [i \in 1..Len(s) |-> IF s[i] = None THEN None ELSE Abs(s[i])]
AnyV(s) == \E i \in 1..Len(s) : s[i] # None
TotLen(p) == IF AnyV(Lens(p)) THEN SumSeq(Lens(p)) ELSE None
TotAzi(p) == IF Len(p) >= 2 /\ p[1] # p[Len(p)] THEN Azi(p[1], p[Len(p)]) ELSE None
TotDir(p) == IF AnyV(Dirs(p)) THEN SumSeq(Dirs(p)) ELSE None
TotAbs(p) == IF AnyV(Dirs(p)) THEN SumSeq(AbsSeq(Dirs(p))) ELSE None
Turned(s) == \E i \in 1..Len(s) : s[i] # None /\ Around(s[i])

\* ---- comparing a measured value with the exact one
Near(x, y, t) == (x = None /\ y = None) \/ (x # None /\ y # None /\ Abs(x - y) <= t)
Mod360(x) == ((x % 360000) + 360000) % 360000
NearTurn(x, y, t) == (x = None /\ y = None) \/
   (x # None /\ y # None /\ LET m == Mod360(x - y) IN m <= t \/ m >= 360000 - t)
Flag(h, v) == h = (IF v = None THEN 0 ELSE 1)
OkLen(v, p) == Near(v, TotLen(p), 2 + Len(p))
OkAzi(v, p) == IF TotAzi(p) # None /\ Around(TotAzi(p)) THEN NearTurn(v, TotAzi(p), 2) ELSE Near(v, TotAzi(p), 2)
OkDir(v, p) == IF Turned(Dirs(p)) THEN NearTurn(v, TotDir(p), 2 + 2 * Len(p)) ELSE Near(v, TotDir(p), 2 + 2 * Len(p))
OkAbs(v, p) == Near(v, TotAbs(p), 2 + 2 * Len(p))
OkLenP(v, p, i) == IF i \in 1..Segments(p) THEN Near(v, Lens(p)[i], 1) ELSE v = Range
OkAziP(v, p, i) == IF i \in 1..Segments(p) THEN Near(v, Azis(p)[i], 2) ELSE v = Range
OkDirP(v, p, i) == IF i \in 1..(Segments(p) - 1)
                   THEN LET d == Dirs(p)[i] IN IF d # None /\ Around(d) THEN v # None /\ NearTurn(v, d, 3) ELSE Near(v, d, 3)
                   ELSE v = Range
OkAbsP(v, p, i) == IF i \in 1..(Segments(p) - 1) THEN Near(v, IF Dirs(p)[i] = None THEN None ELSE Abs(Dirs(p)[i]), 3) ELSE v = Range
\* presence of a measure
HLen(p) == IF TotLen(p) = None THEN 0 ELSE 1
HAzi(p) == IF TotAzi(p) = None THEN 0 ELSE 1
HDir(p) == IF TotDir(p) = None THEN 0 ELSE 1
HSegP(p, i) == IF i \in 1..Segments(p) THEN (IF HasSeg(p, i) THEN 1 ELSE 0) ELSE Range
HDirP(p, i) == IF i \in 1..(Segments(p) - 1) THEN (IF Dirs(p)[i] = None THEN 0 ELSE 1) ELSE Range

\* ---- operations on points
Attach(p, q) == IF p = <<>> \/ q = <<>> THEN TRUE ELSE p[Len(p)] = q[1]
Join(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p ELSE p \o Tail(q)
RECURSIVE Merged(_, _)       \* <<>> as a tuple <<ok, points>>
Merged(p, qs) == IF qs = <<>> THEN <<TRUE, p>>
                 ELSE IF Attach(p, qs[1]) THEN Merged(Join(p, qs[1]), Tail(qs)) ELSE <<FALSE, p>>
MergedSize(p, qs) == Len(Join(p, <<>>)) +       \* points of the result if everything attaches
  (LET n == [i \in 1..Len(qs) |-> IF qs[i] = <<>> THEN 0 ELSE Len(qs[i]) - 1]
       RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE n[i] + S(i - 1) IN
   S(Len(qs)) + (IF p = <<>> /\ \E i \in 1..Len(qs) : qs[i] # <<>> THEN 1 ELSE 0))
Without(p, i) == IF i \in 1..Len(p) THEN SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p)) ELSE p
RECURSIVE WithoutAll(_, _)   \* indices ascending
WithoutAll(p, is) == IF is = <<>> THEN p ELSE WithoutAll(Without(p, is[Len(is)]), SubSeq(is, 1, Len(is) - 1))
CanSub(p, f, t) == f <= t /\ f < Len(p) /\ t <= Len(p)
Sub(p, f, t) == SubSeq(p, f + 1, t)

\* ---- several lines: maximal attached stretches become one line each
RECURSIVE Stretches(_, _)
Stretches(cur, qs) == IF qs = <<>> THEN <<cur>>
                      ELSE IF Attach(cur, qs[1]) THEN Stretches(Join(cur, qs[1]), Tail(qs))
                      ELSE <<cur>> \o Stretches(qs[1], Tail(qs))
MLens(ls) == [i \in 1..Len(ls) |-> TotLen(ls[i])]
MLen(ls) == IF AnyV(MLens(ls)) THEN SumSeq(MLens(ls)) ELSE None
\* lines given empty have no ends; multi lines of non-empty lines only
MAzi(ls) == LET a == ls[1][1]  l == ls[Len(ls)]  b == l[Len(l)] IN IF a # b THEN Azi(a, b) ELSE None
Between(ls, i) == LET p == ls[i]  q == ls[i + 1] IN
  IF p[Len(p)] = q[1] /\ Len(p) >= 2 /\ Len(q) >= 2 /\ HasSeg(p, Len(p) - 1) /\ HasSeg(q, 1)
  THEN Turn(Azi(p[Len(p) - 1], p[Len(p)]), Azi(q[1], q[2])) ELSE None
RECURSIVE MDirs(_)           \* all turning angles, within and between the lines
MDirs(ls) == IF ls = <<>> THEN <<>>
             ELSE Dirs(ls[1]) \o (IF Len(ls) >= 2 THEN <<Between(ls, 1)>> ELSE <<>>) \o MDirs(Tail(ls))
RECURSIVE Count(_)
Count(ls) == IF ls = <<>> THEN 0 ELSE Len(ls[1]) + Count(Tail(ls))
=============================================================================
