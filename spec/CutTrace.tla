------------------------------ MODULE CutTrace ------------------------------
(* Accepts the recorded calls of the real simplification and cutting. *)
EXTENDS Cut, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Begin == e.op = "begin"
\* plain lines, a range of them: from <= i < to
Raw == /\ e.op = "raw"
       /\ IF e.f >= e.t \/ e.t > Len(e.pts) THEN e.out = e.pts
          ELSE LET p == SubSeq(e.pts, e.f + 1, e.t)
                   n == Len(e.out) - e.f - (Len(e.pts) - e.t) IN
               /\ n >= Min(2, Len(p)) /\ n <= Len(p)
               /\ SubSeq(e.out, 1, e.f) = SubSeq(e.pts, 1, e.f)
               /\ SubSeq(e.out, e.f + n + 1, Len(e.out)) = SubSeq(e.pts, e.t + 1, Len(e.pts))
               /\ Simplified(p, SubSeq(e.out, e.f + 1, e.f + n), e.tol, {})
Groups == IF e.retain THEN TurnsOf(e.pts, e.rev) ELSE {}
Rich == /\ e.op = "rich" /\ Simplified(e.pts, e.out, e.tol, Groups)
        /\ e.plane => OkLen(e.len, e.out) /\ OkAzi(e.azi, e.out) /\ OkDir(e.dir, e.out)
        \* the chosen positions name the dropped points, in order
        /\ LET d == e.drop  K == (1..Len(e.pts)) \ {d[i] + 1 : i \in 1..Len(d)} IN
           /\ \A i \in 1..(Len(d) - 1) : d[i] < d[i + 1]
           /\ \A i \in 1..Len(d) : d[i] + 1 \in 1..Len(e.pts)
           /\ Pick(e.pts, K) = e.out
SegList == e.op = "segs" /\ Simplified(e.pts, e.out, e.tol, Groups)

\* nothing is left where the positions do not follow each other; through rounding it may be a piece without extent
Into(p, d) == Min(Max(d, 0), Total(p))
Is(out, p, a, b) == LET w == Part(p, a, b)  o == NoRep(out) IN
  IF Len(p) = 0 THEN out = <<>>
  ELSE IF w = <<>> THEN o \in {<<>>, <<At(p, Into(p, a))>>, <<At(p, Into(p, b))>>}
  ELSE o = w
CutOp == e.op = "cut" /\ Is(e.out, e.pts, e.a, e.b)
CutFrom == e.op = "cutf" /\ Is(e.out, e.pts, e.a, Total(e.pts))
CutTo == e.op = "cutt" /\ Is(e.out, e.pts, 0, e.b)
\* by points: where the line passes a point several times, any of these places
Qs == Places(e.pts, e.q)
Rs == Places(e.pts, e.r)
CutPts == e.op = "cutp" /\ \E a \in Qs, b \in Rs : Is(e.out, e.pts, a, b)
CutPtF == e.op = "cutpf" /\ \E a \in Qs : Is(e.out, e.pts, a, Total(e.pts))
CutPtT == e.op = "cutpt" /\ \E b \in Rs : Is(e.out, e.pts, 0, b)
Dists == e.op = "dist" /\ \A i \in 1..4 : \E x \in (IF i \in {1, 3} THEN Qs ELSE Rs) : Abs(e.d[i] - 1000 * x) <= 1
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (Begin \/ Raw \/ Rich \/ SegList \/ CutOp \/ CutFrom \/ CutTo \/ CutPts \/ CutPtF \/ CutPtT \/ Dists)
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
