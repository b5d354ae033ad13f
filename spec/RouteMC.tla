------------------------------ MODULE RouteMC ------------------------------
(* The mechanism behind C10: a route refers to lines, some of which it owns (a list in the order of the references), and
   remembers its measures. Every operation hands lines over or copies them; a reference whose owner is gone is Dead.
   x and y are the routes at hand; the routes an operation works on are gone when it ends, except for copies.        *)
EXTENDS Route, Json, TLC
CONSTANTS MaxLines, MaxOps, MaxPts, Share
VARIABLES x, y, hist
vars == <<x, y, hist>>
Lines == {<<<<0,0>>,<<1,0>>>>, <<<<1,0>>,<<0,0>>>>, <<<<1,0>>,<<2,0>>,<<2,1>>>>, <<<<2,1>>,<<2,0>>>>,
          <<<<2,0>>,<<1,0>>,<<1,0>>,<<0,0>>>>, <<<<2,0>>,<<0,0>>>>}
NA == <<<<<<9, 9>>>>>>
Dead == -1
\* a route: its lines [p points, o: 0 referenced, k the k-th own line], number of own lines, what the measures were taken from
Pts(r) == [i \in 1..Len(r.ls) |-> r.ls[i].p]
Abstract(r) == [inv |-> r.inv, ls |-> Pts(r)]
None0 == [inv |-> TRUE, ls |-> <<>>, n |-> 0, mem |-> NA]
Fresh(ls, n) == [inv |-> FALSE, ls |-> ls, n |-> n, mem |-> NA]

\* lines handed over in step: an own line is recognised when it is the next one of the list
RECURSIVE HandOver(_, _, _, _)
HandOver(ls, next, out, n) ==
  IF ls = <<>> THEN [ls |-> out, n |-> n]
  ELSE IF ls[1].o = next THEN HandOver(Tail(ls), next + 1, Append(out, [ls[1] EXCEPT !.o = n + 1]), n + 1)
  ELSE HandOver(Tail(ls), next, Append(out, [ls[1] EXCEPT !.o = IF @ = 0 THEN 0 ELSE Dead]), n)
CopyOf(r) == LET h == HandOver(r.ls, 1, <<>>, 0) IN [r EXCEPT !.ls = h.ls, !.n = h.n]
\* cutting searches the list of own lines from the last one that was found
RECURSIVE CutOut(_, _, _, _)
CutOut(ls, next, out, n) ==
  IF ls = <<>> THEN [ls |-> out, n |-> n]
  ELSE IF ls[1].o >= next /\ ls[1].o > 0 THEN CutOut(Tail(ls), ls[1].o + 1, Append(out, [ls[1] EXCEPT !.o = n + 1]), n + 1)
  ELSE CutOut(Tail(ls), next, Append(out, [ls[1] EXCEPT !.o = IF @ = 0 THEN 0 ELSE Dead]), n)
CutLines(r, f, t) == LET h == CutOut(SubSeq(r.ls, f + 1, t), 1, <<>>, 0) IN Fresh(h.ls, h.n)
Own1(p) == Fresh(<<[p |-> p, o |-> 1]>>, 1)
RECURSIVE Concat(_, _, _)    \* merge of parts that go somewhere
Concat(ls, n, rs) == IF rs = <<>> THEN Fresh(ls, n)
  ELSE LET r == rs[1]
           gap == ls # <<>> /\ r.ls # <<>> /\ ~Attach(ls[Len(ls)].p, r.ls[1].p)
           h == HandOver(r.ls, 1, ls, n) IN Concat(h.ls, h.n, Tail(rs))
RECURSIVE Going(_)
Going(rs) == IF rs = <<>> THEN <<>> ELSE (IF Mergeable(Abstract(rs[1])) THEN <<rs[1]>> ELSE <<>>) \o Going(Tail(rs))
MergeOf(rs) == IF \A i \in 1..Len(rs) : rs[i].inv THEN None0 ELSE Concat(<<>>, 0, Going(rs))
CutAtOf(r, f, fp, t, tp) ==
  IF f + 1 = t /\ fp > 0 /\ tp < Len(r.ls[t].p) THEN MergeOf(<<Own1(SubSeq(r.ls[t].p, fp + 1, tp))>>)
  ELSE LET a == IF fp > 0 THEN <<Own1(SubSeq(r.ls[f + 1].p, fp + 1, Len(r.ls[f + 1].p)))>> ELSE <<>>
           g == IF fp > 0 THEN f + 1 ELSE f
           b == IF tp < Len(r.ls[t].p) THEN <<CutLines(r, g, t - 1), Own1(SubSeq(r.ls[t].p, 1, tp))>>
                ELSE IF g < t THEN <<CutLines(r, g, t)>> ELSE <<>> IN MergeOf(a \o b)
\* joining replaces the last line of a and the first line of b by own ones
JoinA(a, b) == LET k == Len(a.ls)  z == a.ls[k]  n == IF z.o = a.n /\ z.o > 0 THEN a.n ELSE a.n + 1 IN
  [Fresh([a.ls EXCEPT ![k] = [p |-> SubSeq(z.p, 1, Len(z.p) - 1) \o <<b.ls[1].p[2]>>, o |-> n]], n) EXCEPT !.mem = NA]
JoinB(b) == LET z == b.ls[1]  popped == z.o = 1
                rest == Tail(b.ls)  gone == Len(z.p) = 2
                shift == (IF gone THEN 0 ELSE 1) - (IF popped THEN 1 ELSE 0)
                moved == [i \in 1..Len(rest) |-> [rest[i] EXCEPT !.o = IF @ = 0 THEN 0 ELSE @ + shift]] IN
            Fresh((IF gone THEN <<>> ELSE <<[p |-> Tail(z.p), o |-> 1]>>) \o moved, b.n + shift)
\* position (line, index) of the k-th distinct point from the start, at its last or first occurrence
RECURSIVE Seek(_, _, _, _)
Seek(ls, i, j, p) == IF i > Len(ls) THEN <<i, 1>>      \* next position holding another point than p
                     ELSE IF j > Len(ls[i]) THEN Seek(ls, i + 1, 1, p)
                     ELSE IF ls[i][j] # p THEN <<i, j>> ELSE Seek(ls, i, j + 1, p)
RECURSIVE Upto(_, _, _, _)   \* index pairs of the first k distinct points
Upto(ls, i, j, k) == IF k = 1 THEN <<i, j>> ELSE LET s == Seek(ls, i, j, ls[i][j]) IN Upto(ls, s[1], s[2], k - 1)
RECURSIVE LastOf(_, _, _)
LastOf(ls, i, j) == LET i2 == IF j < Len(ls[i]) THEN i ELSE i + 1  j2 == IF j < Len(ls[i]) THEN j + 1 ELSE 1 IN
  IF i2 > Len(ls) THEN <<i, j>> ELSE IF ls[i2][j2] = ls[i][j] THEN LastOf(ls, i2, j2) ELSE <<i, j>>
TrimOf(a, b) ==
  LET p == Path(Pts(a))  q == Path(Pts(b))  k == Back(p, q, 0)
      u == Upto(Pts(a), 1, 1, Len(p) - k + 1)  v0 == Upto(Pts(b), 1, 1, k)  v == LastOf(Pts(b), v0[1], v0[2])
      ca == CutAtOf(a, 0, 0, u[1], u[2])
      cb == CutAtOf(b, v[1] - 1, v[2] - 1, Len(b.ls), Len(b.ls[Len(b.ls)].p))
      rev == ca.ls # <<>> /\ cb.ls # <<>> /\ Reversal(ca.ls[Len(ca.ls)].p, cb.ls[1].p) IN
  IF rev THEN MergeOf(<<JoinA(ca, cb), JoinB(cb)>>) ELSE MergeOf(<<ca, cb>>)

Log(c) == hist' = Append(hist, c)
Can == Len(hist) <= MaxOps
Small(r) == Len(Flat(Pts(r))) <= MaxPts
Step(r, c) == x' = r /\ Small(r) /\ Log(c) /\ UNCHANGED y
Query == Can /\ x.mem = NA /\ Step([x EXCEPT !.mem = Pts(x)], <<"q">>)
Swap == Can /\ x # y /\ x' = y /\ y' = x /\ Log(<<"swap">>)
CopyXY == Can /\ y' = CopyOf(x) /\ y' # y /\ Log(<<"copy">>) /\ UNCHANGED x
CutX == Can /\ \E f \in 0..(Len(x.ls) - 1), t \in 1..Len(x.ls) : f < t /\ ~(f = 0 /\ t = Len(x.ls)) /\ Step(CutLines(x, f, t), <<"sub", f, t>>)
CutAtX == Can /\ \E f \in 0..(Len(x.ls) - 1), t \in 1..Len(x.ls) : f < t /\ \E fp \in 0..(Len(x.ls[f + 1].p) - 1), tp \in 0..Len(x.ls[t].p) :
          CanCutAt(Abstract(x), f, fp, t, tp) /\ Step(CutAtOf(x, f, fp, t, tp), <<"subp", f, fp, t, tp>>)
MergeXY == Can /\ Step(MergeOf(<<x, y>>), <<"merge">>)
TrimXY == Can /\ Connected(Pts(x)) /\ Connected(Pts(y)) /\ CanTrim(Abstract(x), Abstract(y)) /\ Step(TrimOf(x, y), <<"trim">>)
JoinXY == /\ Can /\ Meets(Abstract(x), Abstract(y)) /\ \E retain \in BOOLEAN :
             /\ CanJoin(Abstract(x), Abstract(y), retain)
             /\ x' = JoinA(x, y) /\ y' = JoinB(y) /\ Small(x') /\ Log(<<"join", IF retain THEN 1 ELSE 0>>)
Owns == UNION {[1..n -> Lines \X {0, 1}] : n \in 0..MaxLines}
RECURSIVE Number(_, _, _)
Number(s, out, n) == IF s = <<>> THEN Fresh(out, n)
  ELSE Number(Tail(s), Append(out, [p |-> s[1][1], o |-> IF s[1][2] = 1 THEN n + 1 ELSE 0]), n + s[1][2])
Init == \E s \in Owns, t \in Owns : /\ RandomElement(1..1000) <= Share
                                    /\ x = Number(s, <<>>, 0) /\ y = (IF t = <<>> THEN None0 ELSE Number(t, <<>>, 0))
                                    /\ hist = <<<<"init", s, t>>>>
Next == Query \/ Swap \/ CopyXY \/ CutX \/ CutAtX \/ MergeXY \/ TrimXY \/ JoinXY
Spec == Init /\ [][Next]_vars

\* the owned lines are in order and complete, nothing refers to the lines of a route that is gone
Sound(r) == LET o == SelectSeq([i \in 1..Len(r.ls) |-> r.ls[i].o], LAMBDA k : k # 0) IN o = [i \in 1..r.n |-> i]
Owned == Sound(x) /\ Sound(y)
\* remembered measures are those of the present lines
Fits(r) == r.mem \in {NA, Pts(r)}
MemoryRight == Fits(x) /\ Fits(y)
\* the mechanism agrees with the meaning of the operations, and the operations with each other
Ax == Abstract(x)
Ay == Abstract(y)
Same(r, s) == r.inv = s.inv /\ Shape(Pts(r)) = Shape(s.ls)
Meaning ==
  /\ Same(MergeOf(<<x, y>>), MergeRoutes(<<Ax, Ay>>, 0))
  /\ \A k \in 1..(Len(x.ls) - 1) : Shape(Pts(CutLines(x, 0, k)) \o Pts(CutLines(x, k, Len(x.ls)))) = Shape(Pts(x))
  /\ (Connected(Ax.ls) /\ Connected(Ay.ls) /\ CanTrim(Ax, Ay)) =>
       LET r == TrimOf(x, y)  p == Path(Ax.ls)  q == Path(Ay.ls)  z == Retraced(Ax, Ay)  s == Path(Pts(r)) IN
       /\ ~r.inv /\ Shape(Pts(r)) = Shape(<<Trimmed(Ax, Ay)>>)
       /\ PathLen(s) <= PathLen(p) + PathLen(q) - 2 * PathLen(z)
       /\ Len(s) >= 2 => s[1] = p[1] /\ s[Len(s)] = q[Len(q)]
View == <<x, y, Len(hist)>>
Emit == RandomElement(1..1000) <= Share => PrintT("@@" \o ToJson(hist'))
=============================================================================
