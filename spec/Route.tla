------------------------------- MODULE Route -------------------------------
(* Routes (C10): a route is impossible ("inv") or a sequence of lines. Every operation is a function of the points of
   these lines; what the lines are made of (own copies, references, how finely cut) is not observable.               *)
EXTENDS RichLine
Impossible == [inv |-> TRUE, ls |-> <<>>]
Possible(ls) == [inv |-> FALSE, ls |-> ls]
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o Flat(Tail(ls))
RECURSIVE Dedup(_)
Dedup(p) == IF Len(p) < 2 THEN p ELSE IF p[1] = p[2] THEN Dedup(Tail(p)) ELSE <<p[1]>> \o Dedup(Tail(p))
RECURSIVE Full(_)            \* the lines that have points
Full(ls) == IF ls = <<>> THEN <<>> ELSE (IF ls[1] = <<>> THEN <<>> ELSE <<ls[1]>>) \o Full(Tail(ls))
\* the shape of a route: its connected stretches without repeated points
RECURSIVE Shapes(_)
Shapes(ss) == IF ss = <<>> THEN <<>>
              ELSE LET d == Dedup(ss[1]) IN (IF Len(d) < 2 THEN <<>> ELSE <<d>>) \o Shapes(Tail(ss))
Shape(ls) == LET f == Full(ls) IN IF f = <<>> THEN <<>> ELSE Shapes(Stretches(f[1], Tail(f)))
Connected(ls) == \A i \in 1..(Len(ls) - 1) : Attach(ls[i], ls[i + 1])
Path(ls) == Dedup(Flat(ls))

\* ---- measures
RLen(ls) == MLen(ls)
RAzi(ls) == LET f == Full(ls) IN IF f = <<>> THEN None ELSE MAzi(f)
RECURSIVE RDirs(_)
RDirs(ls) == IF ls = <<>> THEN <<>>
             ELSE Dirs(ls[1]) \o (IF Len(ls) >= 2 /\ ls[1] # <<>> /\ ls[2] # <<>> THEN <<Between(ls, 1)>> ELSE <<>>) \o RDirs(Tail(ls))

\* ---- merging
Meets(a, b) == ~a.inv /\ ~b.inv /\ (IF a.ls = <<>> \/ b.ls = <<>> THEN TRUE ELSE Attach(a.ls[Len(a.ls)], b.ls[1]))
Mergeable(r) == ~r.inv /\ \E i \in 1..Len(r.ls) : \E k \in 1..Segments(r.ls[i]) : HasSeg(r.ls[i], k)
RECURSIVE Keep(_)            \* the parts that go somewhere
Keep(rs) == IF rs = <<>> THEN <<>> ELSE (IF Mergeable(rs[1]) THEN <<rs[1]>> ELSE <<>>) \o Keep(Tail(rs))
Gap(ls, r) == ls # <<>> /\ ~Attach(ls[Len(ls)], r.ls[1])
Bridge(ls, r) == LET a == ls[Len(ls)] IN <<a[Len(a)], r.ls[1][1]>>
RECURSIVE Chain(_, _, _)
Chain(ls, rs, connect) == IF rs = <<>> THEN ls
  ELSE Chain(ls \o (IF connect /\ Gap(ls, rs[1]) THEN <<Bridge(ls, rs[1])>> ELSE <<>>) \o rs[1].ls, Tail(rs), connect)
RECURSIVE Gaps(_, _)
Gaps(ls, rs) == rs # <<>> /\ (Gap(ls, rs[1]) \/ Gaps(rs[1].ls, Tail(rs)))
MergeRefused(rs, mode) == mode = 2 /\ Gaps(<<>>, Keep(rs))
MergeRoutes(rs, mode) == IF \A i \in 1..Len(rs) : rs[i].inv THEN Impossible ELSE Possible(Chain(<<>>, Keep(rs), mode = 1))

\* ---- cutting, positions from 0
CanCut(r, f, t) == f <= t /\ f < Len(r.ls) /\ t <= Len(r.ls)
Cut(r, f, t) == Possible(SubSeq(r.ls, f + 1, t))
CanCutAt(r, f, fp, t, tp) ==     \* f < t
  /\ CanCut(r, f, t) /\ r.ls[f + 1] # <<>> /\ fp < Len(r.ls[f + 1]) /\ r.ls[t] # <<>> /\ tp <= Len(r.ls[t])
  /\ f + 1 = t => fp <= tp
CutAt(r, f, fp, t, tp) == IF f + 1 = t THEN Possible(<<SubSeq(r.ls[t], fp + 1, tp)>>)
  ELSE Possible(<<SubSeq(r.ls[f + 1], fp + 1, Len(r.ls[f + 1]))>> \o SubSeq(r.ls, f + 2, t - 1) \o <<SubSeq(r.ls[t], 1, tp)>>)

\* ---- going back the way one came; both routes connected, with points
CanTrim(a, b) == ~a.inv /\ ~b.inv /\ Full(a.ls) # <<>> /\ Full(b.ls) # <<>> /\ Meets(a, b)
RECURSIVE Back(_, _, _)      \* points of p, from its end, that q repeats
Back(p, q, k) == IF k < Len(p) /\ k < Len(q) /\ p[Len(p) - k] = q[k + 1] THEN Back(p, q, k + 1) ELSE k
Retraced(a, b) == LET p == Path(a.ls)  q == Path(b.ls) IN SubSeq(q, 1, Back(p, q, 0))
Reversal(p, q) == Len(p) >= 2 /\ Len(q) >= 2 /\ Around(Turn(Azi(p[Len(p) - 1], p[Len(p)]), Azi(q[1], q[2])))
Trimmed(a, b) == LET p == Path(a.ls)  q == Path(b.ls)  k == Back(p, q, 0)
                     x == SubSeq(p, 1, Len(p) - k + 1)  y == SubSeq(q, k, Len(q)) IN
                 IF Reversal(x, y) THEN Dedup(SubSeq(x, 1, Len(x) - 1) \o Tail(y))     \* the tip is cut off
                 ELSE Join(x, y)
\* ---- leaving out the common point of two routes
CanJoin(a, b, retain) == /\ ~a.inv /\ ~b.inv /\ a.ls # <<>> /\ b.ls # <<>>
  /\ LET x == a.ls[Len(a.ls)]  y == b.ls[1] IN
     /\ Len(x) >= 2 /\ Len(y) >= 2
     /\ ~(retain /\ HasSeg(x, Len(x) - 1) /\ HasSeg(y, 1) /\ Reversal(x, y))
JoinedA(a, b) == LET x == a.ls[Len(a.ls)] IN
  Possible(SubSeq(a.ls, 1, Len(a.ls) - 1) \o <<SubSeq(x, 1, Len(x) - 1) \o <<b.ls[1][2]>>>>)
JoinedB(b) == Possible((IF Len(b.ls[1]) > 2 THEN <<Tail(b.ls[1])>> ELSE <<>>) \o Tail(b.ls))
RECURSIVE PathLen(_)
PathLen(p) == IF Len(p) < 2 THEN 0 ELSE (IF HasSeg(p, 1) THEN Dst(p[1], p[2]) ELSE 0) + PathLen(Tail(p))
=============================================================================
