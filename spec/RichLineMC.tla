----------------------------- MODULE RichLineMC -----------------------------
(* The mechanism behind C09: a lazy line x remembers measures of its segments and totals and adjusts them when it is cut,
   shortened, extended, overwritten or converted. Measures are symbolic: the segment or point pair they were taken from.
   Every way to reach a new memory is emitted as a history for the real lines. y is a second line that x meets.       *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS P, MaxPts, MaxLen, Share
VARIABLES x, y, hist
vars == <<x, y, hist>>
NA == <<<<0, 0>>>>  \* not computed yet

Pairs(p) == [i \in 1..(IF Len(p) < 2 THEN 0 ELSE Len(p) - 1) |-> <<p[i], p[i + 1]>>]
Ends(p) == IF p = <<>> THEN <<>> ELSE <<p[1], p[Len(p)]>>
\* a line: points, and memory: totals (the points they were computed from) and per segment arrays, empty if never computed
New(p) == [pts |-> p, len |-> NA, azi |-> NA, dir |-> NA, lens |-> <<>>, azis |-> <<>>]
Segs(m) == IF Len(m.pts) < 2 THEN 0 ELSE Len(m.pts) - 1
Filled(a, m) == [i \in 1..Len(a) |-> IF a[i] = NA THEN Pairs(m.pts)[i] ELSE a[i]]
LensOf(m) == IF m.lens = <<>> THEN Pairs(m.pts) ELSE m.lens
AzisOf(m) == IF m.azis = <<>> THEN Pairs(m.pts) ELSE m.azis
\* the total is remembered as the sequence of segment measures that were summed up
QLen(m) == IF m.len # NA THEN m ELSE [m EXCEPT !.lens = Filled(LensOf(m), m), !.len = Filled(LensOf(m), m)]
QAzi(m) == IF m.azi # NA THEN m ELSE [m EXCEPT !.azi = Ends(m.pts)]
QDir(m) == IF m.dir # NA THEN m ELSE [m EXCEPT !.azis = Filled(AzisOf(m), m), !.dir = Filled(AzisOf(m), m)]
QLenP(m, i) == LET a == LensOf(m) IN [m EXCEPT !.lens = [a EXCEPT ![i] = IF @ = NA THEN Pairs(m.pts)[i] ELSE @]]
QAziP(m, i) == LET a == AzisOf(m) IN [m EXCEPT !.azis = [a EXCEPT ![i] = IF @ = NA THEN Pairs(m.pts)[i] ELSE @]]
Eager(m) == QDir(QAzi(QLen(m)))
Part(a, f, t) == IF a # <<>> /\ f < t THEN SubSeq(a, f + 1, t) ELSE <<>>
SubLine(m, f, t) ==     \* points f..t-1 (from 0)
  LET k == IF t > 0 THEN t - 1 ELSE 0
      p == SubSeq(m.pts, f + 1, t) IN
  IF f >= k THEN New(p)
  ELSE [pts |-> p, len |-> IF f = 0 /\ k = Len(m.lens) THEN m.len ELSE NA,
        azi |-> IF f = 0 /\ k = Len(m.lens) THEN m.azi ELSE NA,
        dir |-> IF f = 0 /\ k = Len(m.azis) THEN m.dir ELSE NA,
        lens |-> Part(m.lens, f, k), azis |-> Part(m.azis, f, k)]
EraseArr(a, p, i) ==    \* segments of a line that lost point i (from 0), p the remaining points
  IF a = <<>> \/ i > Len(a) THEN a
  ELSE LET j == IF i < Len(a) THEN i + 1 ELSE i
           b == SubSeq(a, 1, j - 1) \o SubSeq(a, j + 1, Len(a)) IN
       IF b # <<>> /\ i > 0 /\ i < Len(p) THEN [b EXCEPT ![i] = Pairs(p)[i]] ELSE b
EraseAt(m, i) == LET p == SubSeq(m.pts, 1, i) \o SubSeq(m.pts, i + 2, Len(m.pts)) IN
  [m EXCEPT !.pts = p, !.lens = EraseArr(m.lens, p, i), !.azis = EraseArr(m.azis, p, i)]
Forget(m, azimuth) == [m EXCEPT !.len = NA, !.dir = NA, !.azi = IF azimuth THEN NA ELSE @]
EraseOne(m, i) == Forget(EraseAt(m, i), i = 0 \/ i = Len(m.pts) - 1)
EraseTwo(m, i, j) == Forget(EraseAt(EraseAt(m, j), i), i = 0 \/ j + 1 = Len(m.pts))
Fill(a, n) == a \o [i \in 1..(n - Len(a)) |-> NA]
Attach(p, q) == IF p = <<>> \/ q = <<>> THEN TRUE ELSE p[Len(p)] = q[1]
Join(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p ELSE p \o Tail(q)
MergeLines(m, n) == Forget([m EXCEPT !.pts = Join(m.pts, n.pts), !.lens = Fill(m.lens, Segs(m)) \o Fill(n.lens, Segs(n)),
                                     !.azis = Fill(m.azis, Segs(m)) \o Fill(n.azis, Segs(n))], TRUE)

Seqs(k) == UNION {[1..n -> P] : n \in 0..k}
Log(c) == hist' = Append(hist, c)
Can == Len(hist) < MaxLen
Query == Can /\ \E w \in {"len", "azi", "dir"} :
         x' = (CASE w = "len" -> QLen(x) [] w = "azi" -> QAzi(x) [] w = "dir" -> QDir(x)) /\ x' # x /\ Log(<<"q", w>>) /\ UNCHANGED y
QueryP == Can /\ \E w \in {"lenp", "azip"}, i \in 1..Segs(x) :
         x' = (IF w = "lenp" THEN QLenP(x, i) ELSE QAziP(x, i)) /\ x' # x /\ Log(<<"q", w, i - 1>>) /\ UNCHANGED y
Sub == Can /\ x.pts # <<>> /\ \E f \in 0..(Len(x.pts) - 1), t \in 0..Len(x.pts) :
         f <= t /\ x' = SubLine(x, f, t) /\ Log(<<"sub", f, t>>) /\ UNCHANGED y
Erase == Can /\ \E i \in 0..(Len(x.pts) - 1) : x' = EraseOne(x, i) /\ Log(<<"erase", i>>) /\ UNCHANGED y
Erase2 == Can /\ \E i, j \in 0..(Len(x.pts) - 1) : i < j /\ x' = EraseTwo(x, i, j) /\ Log(<<"erases", i, j>>) /\ UNCHANGED y
Merge == Can /\ \E o \in {"xy", "yx"} :
         LET a == IF o = "xy" THEN x ELSE y  b == IF o = "xy" THEN y ELSE x IN
         Attach(a.pts, b.pts) /\ Len(Join(a.pts, b.pts)) <= MaxPts + 1 /\ x' = MergeLines(a, b) /\ Log(<<"merge", o>>) /\ UNCHANGED y
Swap == Can /\ x # y /\ x' = y /\ y' = x /\ Log(<<"swap">>)
ToEager == Can /\ x' = Eager(x) /\ x' # x /\ Log(<<"eager">>) /\ UNCHANGED y
FromEager == Can /\ x' = Eager(y) /\ Log(<<"fromeager">>) /\ UNCHANGED y
Assign == Can /\ x' = New(y.pts) /\ Log(<<"assign">>) /\ UNCHANGED y
Init == \E p \in Seqs(MaxPts), q \in Seqs(2) : x = New(p) /\ y = New(q) /\ hist = <<<<"init", p, q>>>>
Next == Query \/ QueryP \/ Sub \/ Erase \/ Erase2 \/ Merge \/ Swap \/ ToEager \/ FromEager \/ Assign
Spec == Init /\ [][Next]_vars

\* whatever is remembered belongs to the current points
Right(m) == /\ m.lens # <<>> => Len(m.lens) = Segs(m) /\ \A i \in 1..Segs(m) : m.lens[i] \in {NA, Pairs(m.pts)[i]}
            /\ m.azis # <<>> => Len(m.azis) = Segs(m) /\ \A i \in 1..Segs(m) : m.azis[i] \in {NA, Pairs(m.pts)[i]}
            /\ m.len \in {NA, Pairs(m.pts)} /\ m.dir \in {NA, Pairs(m.pts)} /\ m.azi \in {NA, Ends(m.pts)}
MemoryRight == Right(x) /\ Right(y)
View == <<x, y, Len(hist)>>
Emit == (Len(hist') = MaxLen \/ RandomElement(1..6) = 1) => (RandomElement(1..1000) <= Share => PrintT("@@" \o ToJson(hist')))
=============================================================================
