--------------------------- MODULE RichLineTrace ---------------------------
(* Accepts the recorded histories of real plain, lazy and eager lines and multi lines. Env GEO: geographic points, where
   only the agreement with a line computed from scratch is decided. *)
EXTENDS RichLine, Json, IOUtils, TLC
VARIABLES l, ln, ml
Trace == ndJsonDeserialize(IOEnv.TRACE)
Geo == IOEnv.GEO = "1"
e == Trace[l]
Gone == <<<<-1>>>>
LinesOf(ids) == [k \in 1..Len(ids) |-> ln[ids[k] + 1]]

TotOk(t, p) == /\ ~Geo => OkLen(t[1], p) /\ OkAzi(t[2], p) /\ OkDir(t[3], p) /\ OkAbs(t[4], p)
               /\ t[5] = HLen(p) /\ t[6] = HAzi(p) /\ t[7] = HDir(p)
               /\ Flag(t[5], t[1]) /\ Flag(t[6], t[2]) /\ Flag(t[7], t[3]) /\ Flag(t[7], t[4])
AllOk(o, p) ==
  /\ TotOk(o.tot, p) /\ o.tot = o.ftot /\ o.per = o.fper /\ o.dirs = o.fdirs
  /\ Len(o.per) = Segments(p) /\ Len(o.dirs) = (IF Segments(p) < 2 THEN 0 ELSE Segments(p) - 1)
  /\ \A i \in 1..Len(o.per) : LET s == o.per[i] IN
       /\ ~Geo => OkLenP(s[1], p, i) /\ OkAziP(s[2], p, i)
       /\ s[3] = HSegP(p, i) /\ s[4] = HSegP(p, i)
  /\ \A i \in 1..Len(o.dirs) : LET s == o.dirs[i] IN
       /\ ~Geo => OkDirP(s[1], p, i) /\ OkAbsP(s[2], p, i)
       /\ s[3] = HDirP(p, i)
SegOk(s, p, i) == IF i \notin 1..Segments(p) THEN s = <<>> ELSE
                  /\ (IF Geo THEN Flag(s[3], s[1]) /\ Flag(s[4], s[2]) ELSE OkLenP(s[1], p, i) /\ OkAziP(s[2], p, i))
                  /\ s[3] = HSegP(p, i) /\ s[4] = HSegP(p, i)
                  /\ <<s[5], s[6]>> = p[i] /\ <<s[7], s[8]>> = p[i + 1]
QueryOk(w, i, r, p) ==
  CASE w = "hlen" -> r = HLen(p) [] w = "hazi" -> r = HAzi(p) [] w = "hdir" -> r = HDir(p)
    [] w = "hlenp" -> r = HSegP(p, i) [] w = "hazip" -> r = HSegP(p, i) [] w = "hdirp" -> r = HDirP(p, i)
    [] Geo -> TRUE
    [] w = "len" -> OkLen(r, p) [] w = "azi" -> OkAzi(r, p) [] w = "dir" -> OkDir(r, p) [] w = "abs" -> OkAbs(r, p)
    [] w = "lenp" -> OkLenP(r, p, i) [] w = "azip" -> OkAziP(r, p, i)
    [] w = "dirp" -> OkDirP(r, p, i) [] w = "absp" -> OkAbsP(r, p, i)

\* the points of slot d after the operation
NewPts == LET p == ln[e.d + 1] IN
  CASE e.op \in {"new", "set"} -> e.in
    [] e.op \in {"copy", "asg", "mcopy", "masg"} -> ln[e.s + 1]
    [] e.op = "merge" -> LET m == Merged(p, LinesOf(e.src)) IN IF m[1] THEN m[2] ELSE <<>>
    [] e.op \in {"erase", "erases"} -> WithoutAll(p, [k \in 1..Len(e.idx) |-> e.idx[k] + 1])
    [] e.op = "sub" -> IF CanSub(ln[e.s + 1], e.from, e.to) THEN Sub(ln[e.s + 1], e.from, e.to) ELSE p
    [] e.op = "ser" -> p
Change == /\ e.op \in {"new", "set", "copy", "asg", "mcopy", "masg", "merge", "erase", "erases", "sub", "ser"}
          /\ e.pts = NewPts
          /\ e.op = "merge" => /\ e.ok = Merged(ln[e.d + 1], LinesOf(e.src))[1]
                               /\ e.size = MergedSize(ln[e.d + 1], LinesOf(e.src))
          /\ e.op = "sub" => e.ok = CanSub(ln[e.s + 1], e.from, e.to)
          /\ ln' = [ln EXCEPT ![e.d + 1] = e.pts] /\ UNCHANGED ml
Query == /\ e.op = "q" /\ QueryOk(e.w, e.i + 1, e.r, ln[e.d + 1]) /\ UNCHANGED <<ln, ml>>
Segment == /\ e.op = "seg" /\ SegOk(e.seg, ln[e.d + 1], e.i + 1) /\ SegOk(e.ref, ln[e.d + 1], e.i + 1) /\ UNCHANGED <<ln, ml>>
All == /\ e.op = "all" /\ AllOk(e.obs, ln[e.d + 1]) /\ UNCHANGED <<ln, ml>>
MChange == /\ e.op \in {"mnew", "mcp", "masn", "mmerge"}
           /\ LET now == CASE e.op = "mnew" -> LinesOf(e.src)
                           [] e.op \in {"mcp", "masn"} -> ml[e.s + 1]
                           [] e.op = "mmerge" -> LET q == LinesOf(e.src) IN ml[e.d + 1] \o Stretches(q[1], Tail(q)) IN
              e.lines = now /\ ml' = [ml EXCEPT ![e.d + 1] = now]
           /\ UNCHANGED ln
MAll == /\ e.op = "mall" /\ UNCHANGED <<ln, ml>>
        /\ IF ml[e.d + 1] = <<>> THEN TRUE ELSE LET ls == ml[e.d + 1]  t == e.tot  ds == MDirs(ls)  n == Count(ls) IN
           /\ \A i \in 1..Len(ls) : TotOk(e.each[i], ls[i])
           /\ e.sizes = n /\ e.empty = (n = 0) /\ Len(e.each) = Len(ls)
           /\ t[5] = (IF MLen(ls) = None THEN 0 ELSE 1) /\ t[6] = (IF MAzi(ls) = None THEN 0 ELSE 1)
           /\ Flag(t[5], t[1]) /\ Flag(t[6], t[2]) /\ Flag(t[7], t[3]) /\ Flag(t[7], t[4])
           /\ ~Geo => /\ t[7] = (IF AnyV(ds) THEN 1 ELSE 0)
                      /\ Near(t[1], MLen(ls), 2 + n)
                      /\ IF MAzi(ls) # None /\ Around(MAzi(ls)) THEN NearTurn(t[2], MAzi(ls), 2) ELSE Near(t[2], MAzi(ls), 2)
                      /\ LET d == IF AnyV(ds) THEN SumSeq(ds) ELSE None IN
                         IF Turned(ds) THEN NearTurn(t[3], d, 2 + 2 * n) ELSE Near(t[3], d, 2 + 2 * n)
                      /\ Near(t[4], IF AnyV(ds) THEN SumSeq(AbsSeq(ds)) ELSE None, 2 + 2 * n)
Reset == e.op = "begin" /\ ln' = <<<<>>, <<>>, <<>>, <<>>>> /\ ml' = <<<<>>, <<>>>>
Init == l = 1 /\ ln = <<<<>>, <<>>, <<>>, <<>>>> /\ ml = <<<<>>, <<>>>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (Change \/ Query \/ Segment \/ All \/ MChange \/ MAll \/ Reset)
Spec == Init /\ [][Next]_<<l, ln, ml>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
