----------------------------- MODULE Tracks -----------------------------
(* What the rows of a file of tracks mean (C16). A row is [f: file, id: parts of the identifier, t: time or -1, k: kind, ls: lines of points]
   with the kinds P (a point of a track), L (a whole track, one or several lines), X (not understood, skipped).
   c = [noid, whole, agg, sel]: identifiers are given or counted, per file or per row; sel are the selected ones (none: all).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Joined(_, _)
Joined(s, agg) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o agg \o Joined(Tail(s), agg)
RowInFile(rows, i) == Cardinality({j \in 1..(i - 1) : rows[j].f = rows[i].f})
Key(c, rows, i) ==
  IF c.noid THEN ToString(IF c.whole /\ rows[i].k = "P" THEN rows[i].f ELSE RowInFile(rows, i)) ELSE Joined(rows[i].id, c.agg)
Wanted(c, id) == Len(c.sel) = 0 \/ \E i \in 1..Len(c.sel) : c.sel[i] = id
\* the members of a set of numbers in order of what they are at, and where this is equal in their own order
InOrder(I, at) ==
  LET pos == TLCEval([i \in I |-> 1 + Cardinality({j \in I : at[j] < at[i] \/ (at[j] = at[i] /\ j < i)})])
  IN [n \in 1..Cardinality(I) |-> CHOOSE i \in I : pos[i] = n]
TracksOf(c, rows) ==
  LET N == 1..Len(rows)
      key == TLCEval([i \in N |-> Key(c, rows, i)])
      at == TLCEval([i \in N |-> rows[i].t])
      P == {i \in N : rows[i].k = "P" /\ Wanted(c, key[i])}
      ids == {key[i] : i \in P}
      pts(id) == LET o == InOrder({i \in P : key[i] = id}, at) IN <<[n \in 1..Len(o) |-> rows[o[n]].ls[1][1]]>>
      L == {i \in N : rows[i].k = "L" /\ Wanted(c, key[i])}
      firsts == {CHOOSE i \in P : key[i] = id /\ \A j \in P : key[j] = id => i <= j : id \in ids}
      o == InOrder(firsts \cup L, [i \in N |-> i]) IN
  [n \in 1..Len(o) |-> IF o[n] \in L THEN [id |-> key[o[n]], ls |-> rows[o[n]].ls] ELSE [id |-> key[o[n]], ls |-> pts(key[o[n]])]]
\* rows with the same identifier lie together
Grouped(c, rows) == \A i, j, k \in 1..Len(rows) : (i < j /\ j < k /\ Key(c, rows, i) = Key(c, rows, k)) => Key(c, rows, j) = Key(c, rows, i)
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])
\* ---- lines of text, each a track, numbered
InputTracks(rows) ==
  LET o == InOrder({i \in 1..Len(rows) : rows[i].k # "X"}, [i \in 1..Len(rows) |-> i])
  IN [n \in 1..Len(o) |-> [id |-> ToString(o[n] - 1), ls |-> rows[o[n]].ls]]
\* ---- GPX: tracks with a name (or that of the file), made of segments of [t, p]
RECURSIVE Counted(_, _, _)
NoName(c, r) == c.noid \/ (r.name = "" /\ r.meta = "")
Counted(c, rows, i) == IF i = 0 THEN 0 ELSE Counted(c, rows, i - 1) + (IF NoName(c, rows[i]) THEN 1 ELSE 0)
GpxId(c, rows, i) == IF NoName(c, rows[i]) THEN ToString(Counted(c, rows, i - 1)) ELSE IF rows[i].name # "" THEN rows[i].name ELSE rows[i].meta
GpxTracks(c, rows) ==
  LET o == InOrder({i \in 1..Len(rows) : Wanted(c, GpxId(c, rows, i))}, [i \in 1..Len(rows) |-> i])
      seg(s) == LET p == InOrder(1..Len(s), [j \in 1..Len(s) |-> s[j].t]) IN [j \in 1..Len(p) |-> s[p[j]].p] IN
  [n \in 1..Len(o) |-> [id |-> GpxId(c, rows, o[n]), ls |-> LET S == SelectSeq(rows[o[n]].segs, LAMBDA s : s # <<>>) IN [j \in 1..Len(S) |-> seg(S[j])]]]
\* ---- lists of identifiers of edges: as long as possible one edge after the other, then again from there
Meet(p, q) == p[Len(p)] = q[1]
RECURSIVE NoRepeats(_)
NoRepeats(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN NoRepeats(Tail(s)) ELSE <<s[1]>> \o NoRepeats(Tail(s))
RECURSIVE Longest(_, _, _, _), Choices(_, _)
Named(es, id) == {i \in 1..Len(es) : es[i].id = id}
\* the paths of edges es along ids from the n-th on that cannot be continued, all of the same length
Longest(es, ids, n, P) ==
  IF n > Len(ids) THEN P
  ELSE LET Q == {p \o <<j>> : p \in P, j \in Named(es, ids[n])}
           R == {q \in Q : Meet(es[q[Len(q) - 1]].p, es[q[Len(q)]].p)} IN
       IF R = {} THEN P ELSE Longest(es, ids, n + 1, R)
Choices(es, ids) ==
  IF ids = <<>> THEN {<<>>}
  ELSE LET P == Longest(es, ids, 2, {<<j>> : j \in Named(es, ids[1])})
           k == Len(CHOOSE p \in P : TRUE) IN
       {p \o r : p \in P, r \in Choices(es, SubSeq(ids, k + 1, Len(ids)))}
RECURSIVE Chained(_, _)
Chained(ls, rest) ==
  IF rest = <<>> THEN ls
  ELSE IF ls # <<>> /\ Meet(ls[Len(ls)], rest[1])
       THEN Chained(SubSeq(ls, 1, Len(ls) - 1) \o <<ls[Len(ls)] \o Tail(rest[1])>>, Tail(rest))
       ELSE Chained(ls \o <<rest[1]>>, Tail(rest))
Known(es, ids) == ids # <<>> /\ \A i \in 1..Len(ids) : Named(es, ids[i]) # {}
EdgesRight(es, rows, got) ==       \* one track for each file that names known edges only
  LET o == InOrder({i \in 1..Len(rows) : Known(es, rows[i])}, [i \in 1..Len(rows) |-> i]) IN
  /\ Len(got) = Len(o)
  /\ \A n \in 1..Len(o) : /\ got[n].id = ToString(o[n] - 1)
                          /\ \E ch \in Choices(es, NoRepeats(rows[o[n]])) :
                               got[n].ls = Chained(<<>>, [k \in 1..Len(ch) |-> es[ch[k]].p])
==============================================================================
