----------------------------- MODULE RouteTrace -----------------------------
(* Accepts the recorded histories of real plain, lazy and eager routes. *)
EXTENDS Route, Json, IOUtils, TLC
VARIABLES l, pl, rt
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
R(i) == rt[i + 1]
Parts(ids) == [k \in 1..Len(ids) |-> R(ids[k])]
Rec(o) == [inv |-> o.inv, ls |-> o.ls]

\* the recorded route has the expected shape
As(o, r) == o.inv = r.inv /\ Shape(o.ls) = Shape(r.ls)
AsPath(o, p) == ~o.inv /\ Shape(o.ls) = Shape(<<p>>)
SameLines(o, r) == o.inv = r.inv /\ o.ls = r.ls
Measures(o) == LET ls == o.ls  t == o.tot  ds == RDirs(ls)  n == Len(Flat(ls)) IN
  /\ o.empty = (ls = <<>>) /\ o.size = Len(ls)
  /\ o.conn = Connected(ls)
  /\ t[5] = (IF RLen(ls) = None THEN 0 ELSE 1) /\ t[6] = (IF RAzi(ls) = None THEN 0 ELSE 1) /\ t[7] = (IF AnyV(ds) THEN 1 ELSE 0)
  /\ Flag(t[5], t[1]) /\ Flag(t[6], t[2]) /\ Flag(t[7], t[3]) /\ Flag(t[7], t[4])
  /\ Near(t[1], RLen(ls), 2 + n)
  /\ IF RAzi(ls) # None /\ Around(RAzi(ls)) THEN NearTurn(t[2], RAzi(ls), 2) ELSE Near(t[2], RAzi(ls), 2)
  /\ LET d == IF AnyV(ds) THEN SumSeq(ds) ELSE None IN
     IF Turned(ds) THEN NearTurn(t[3], d, 2 + 2 * n) ELSE Near(t[3], d, 2 + 2 * n)
  /\ Near(t[4], IF AnyV(ds) THEN SumSeq(AbsSeq(ds)) ELSE None, 2 + 2 * n)

Pool == e.op = "pool" /\ pl' = [pl EXCEPT ![e.i + 1] = e.pts] /\ UNCHANGED rt
Set(d, o) == rt' = [rt EXCEPT ![d + 1] = Rec(o)] /\ UNCHANGED pl
Make == e.op = "make" /\ SameLines(e.r, Possible([k \in 1..Len(e.src) |-> pl[e.src[k] + 1]])) /\ Set(e.d, e.r)
Inv == e.op = "inv" /\ SameLines(e.r, [inv |-> e.b, ls |-> <<>>]) /\ Set(e.d, e.r)
Copy == e.op \in {"copy", "asg", "mcopy", "masg"} /\ SameLines(e.r, R(e.s)) /\ Set(e.d, e.r)
Merge == /\ e.op = "merge"
         /\ LET rs == Parts(e.src) IN
            /\ e.ok = ~MergeRefused(rs, e.mode)
            /\ IF e.ok THEN As(e.r, MergeRoutes(rs, e.mode)) /\ Set(e.d, e.r) ELSE UNCHANGED <<pl, rt>>
SubR == /\ e.op = "sub"
       /\ e.ok = CanCut(R(e.s), e.f, e.t)
       /\ IF e.ok THEN As(e.r, Cut(R(e.s), e.f, e.t)) /\ Set(e.d, e.r) ELSE UNCHANGED <<pl, rt>>
SubP == /\ e.op = "subp"
        /\ e.ok = CanCutAt(R(e.s), e.f, e.fp, e.t, e.tp)
        /\ IF e.ok THEN As(e.r, CutAt(R(e.s), e.f, e.fp, e.t, e.tp)) /\ Set(e.d, e.r) ELSE UNCHANGED <<pl, rt>>
Whole(a, b) == Connected(a.ls) /\ Connected(b.ls)
Ret == /\ e.op = "ret" /\ UNCHANGED <<pl, rt>>
       /\ LET a == R(e.a)  b == R(e.b) IN
          IF ~Whole(a, b) THEN TRUE
          ELSE LET x == IF CanTrim(a, b) THEN Retraced(a, b) ELSE <<>> IN
               Shape(<<e.own>>) = Shape(<<[i \in 1..Len(x) |-> x[Len(x) + 1 - i]]>>) /\ Shape(<<e.other>>) = Shape(<<x>>)
Trim == /\ e.op = "trim"
        /\ LET a == R(e.a)  b == R(e.b) IN
           IF ~Whole(a, b) THEN TRUE
           ELSE IF CanTrim(a, b) THEN AsPath(e.r, Trimmed(a, b)) ELSE e.r.inv /\ e.r.ls = <<>>
        /\ Set(e.d, e.r)
JoinRoutes == /\ e.op = "join"
        /\ LET a == R(e.a)  b == R(e.b) IN
           /\ IF CanJoin(a, b, e.retain) THEN As(e.ra, JoinedA(a, b)) /\ As(e.rb, JoinedB(b)) ELSE SameLines(e.ra, a) /\ SameLines(e.rb, b)
        /\ rt' = [rt EXCEPT ![e.a + 1] = Rec(e.ra), ![e.b + 1] = Rec(e.rb)] /\ UNCHANGED pl
Ask == /\ e.op = "ask" /\ UNCHANGED <<pl, rt>>
       /\ e.meets = Meets(R(e.a), R(e.b)) /\ e.mergeable = Mergeable(R(e.a))
Query == e.op = "q" /\ UNCHANGED <<pl, rt>>
All == /\ e.op = "all" /\ UNCHANGED <<pl, rt>>
       /\ SameLines(e.r, R(e.d)) /\ Measures(e.r)
       /\ Shape(e.r.multi) = Shape(e.r.ls)
       /\ Path(<<e.r.flat>>) = Path(e.r.ls)
Reset == e.op = "begin" /\ pl' = [i \in 1..8 |-> <<>>] /\ rt' = [i \in 1..4 |-> Impossible]
Init == l = 1 /\ pl = [i \in 1..8 |-> <<>>] /\ rt = [i \in 1..4 |-> Impossible]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (Pool \/ Make \/ Inv \/ Copy \/ Merge \/ SubR \/ SubP \/ Ret \/ Trim \/ JoinRoutes \/ Ask \/ Query \/ All \/ Reset)
Spec == Init /\ [][Next]_<<l, pl, rt>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
