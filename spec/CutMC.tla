------------------------------- MODULE CutMC -------------------------------
(* The mechanisms behind C11: simplification by repeated halving of stretches, with stretches still to be looked at, and
   cutting by one pass along the line. Both end in what Cut.tla asks for.                                            *)
EXTENDS Cut, Json, TLC
CONSTANTS MaxPts, W, H, Share, MaxCut
VARIABLES p, job, todo, drop, pos, i, from, to, hist
vars == <<p, job, todo, drop, pos, i, from, to, hist>>
Grid == (0..W) \X (0..H)
Tols == {0, 7, 13}
Revs == {0, 50}
LinesOf(s) == UNION {[1..n -> s] : n \in 1..MaxPts}
\* one line in turn: steps of the grid; sampled
Rect(q) == \A k \in 1..Segments(q) : q[k][1] = q[k + 1][1] \/ q[k][2] = q[k + 1][2]
RECURSIVE Halves(_, _, _, _)   \* stretches of a line between turns found by one pass
Halves(q, rev, start, k) ==
  IF k >= Len(q) THEN <<<<start, Len(q)>>>>
  ELSE IF k > start /\ Turns(q, k, rev) /\ Succ(q, k) = k + 1 THEN <<<<start, k>>>> \o Halves(q, rev, k, k + 1)
  ELSE Halves(q, rev, start, k + 1)
Farthest(q, a, b, t) ==        \* a point of largest distance: any of them will do for the meaning
  {m \in (a + 1)..(b - 1) : Far(q[m], q[a], q[b], t)}
StartSimp == /\ job.k = "none" /\ \E t \in Tols, retain \in BOOLEAN, rev \in Revs :
               /\ (retain \/ rev = 0)
               /\ job' = [k |-> "simp", t |-> t, retain |-> retain, rev |-> rev]
               /\ todo' = (IF Len(p) < 3 THEN <<>> ELSE IF retain THEN Halves(p, rev, 1, 2) ELSE <<<<1, Len(p)>>>>)
               /\ hist' = <<p, "simp", t, IF retain THEN 1 ELSE 0, rev>>
             /\ UNCHANGED <<p, drop, pos, i, from, to>>
Split == /\ job.k = "simp" /\ todo # <<>>
         /\ LET s == todo[1]  f == Farthest(p, s[1], s[2], job.t) IN
            IF f = {} THEN /\ drop' = drop \cup ((s[1] + 1)..(s[2] - 1)) /\ todo' = Tail(todo)
            ELSE /\ \E m \in f : todo' = <<<<s[1], m>>, <<m, s[2]>>>> \o Tail(todo)
                 /\ drop' = drop
         /\ UNCHANGED <<p, job, pos, i, from, to, hist>>
\* cutting at whole positions: the first point after the start, the first at or after the end
StartCut == /\ job.k = "none" /\ Rect(p) /\ Len(p) >= 2
            /\ \E a \in -1..MaxCut, b \in -1..MaxCut : job' = [k |-> "cut", a |-> a, b |-> b] /\ hist' = <<p, "cut", a, b>>
            /\ pos' = 0 /\ i' = 1 /\ from' = 0 /\ to' = 0 /\ UNCHANGED <<p, todo, drop>>
Walk == /\ job.k = "cut" /\ i < Len(p) /\ to = 0
        /\ LET q == pos + Leg(p[i], p[i + 1]) IN
           /\ pos' = q /\ i' = i + 1
           /\ from' = (IF from = 0 /\ q > job.a THEN i + 1 ELSE from)
           /\ to' = (IF q >= job.b THEN i + 1 ELSE 0)
        /\ UNCHANGED <<p, job, todo, drop, hist>>
Init == /\ \E n \in 1..MaxPts : p \in [1..n -> Grid] /\ RandomElement(1..1000) <= Share
        /\ job = [k |-> "none"] /\ todo = <<>> /\ drop = {} /\ pos = 0 /\ i = 0 /\ from = 0 /\ to = 0 /\ hist = <<>>
Next == StartSimp \/ Split \/ StartCut \/ Walk
Spec == Init /\ [][Next]_vars
SimpRight == (job.k = "simp" /\ todo = <<>>) =>
             Simplified(p, Pick(p, (1..Len(p)) \ drop), job.t, IF job.retain THEN TurnsOf(p, job.rev) ELSE {})
CutDone == job.k = "cut" /\ (to # 0 \/ i = Len(p))
Inside == Max(job.a, 0) < Min(job.b, Total(p))
CutRight == CutDone /\ Total(p) > 0 /\ Inside =>
  LET a == Max(job.a, 0)  b == Min(job.b, Total(p))
      f == IF from = 0 THEN Len(p) + 1 ELSE from   t == IF to = 0 THEN Len(p) ELSE to - 1
      m == [k \in 1..(IF t >= f THEN t - f + 1 ELSE 0) |-> Th(p[f + k - 1])] IN
  /\ NoRep(<<At(p, a)>> \o m \o <<At(p, b)>>) = Part(p, job.a, job.b)
\* the part between two positions is as long as they are apart, and cutting at a position in between loses nothing
Additive == (job.k = "none" /\ Rect(p) /\ Len(p) >= 2) =>
  \A a \in 0..Total(p), b \in 0..Total(p) : a < b =>
    LET x == Part(p, a, b) IN
    /\ Total(x) = 1000 * (b - a) /\ x[1] = At(p, a) /\ x[Len(x)] = At(p, b)
    /\ \A m \in (a + 1)..(b - 1) : Total(Part(p, a, m)) + Total(Part(p, m, b)) = Total(x)
View == <<p, job, todo, drop, pos, i, from, to>>
Emit == job.k = "none" => PrintT("@@" \o ToJson(hist'))
=============================================================================
