----------------------------- MODULE GraphTrace -----------------------------
(* Recorded histories of the real graph must be behaviours of Graph, and    *)
(* every observation must equal the graph the specification is in.          *)
EXTENDS Graph, Integers, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<gvars, l>>

TraceInit == kind = "dir" /\ vs = <<>> /\ es = <<>> /\ nv = 0 /\ ne = 0 /\ l = 1

Range(s) == {s[i] : i \in 1..Len(s)}
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1

\* the observation o of the whole graph, judged in the next state
SameSet(seq, S) == Len(seq) = Cardinality(S) /\ Range(seq) = S
OutOf2(v) == {e.id : e \in {x \in Range(es') : x.s = v \/ (Undirected(kind') /\ x.t = v)}}
InOf2(v) == {e.id : e \in {x \in Range(es') : x.t = v}}
Match(o) ==
  /\ o.nv = Len(vs') /\ Len(o.vs) = Len(vs')
  /\ o.ne = Len(es') /\ Len(o.es) = Len(es')
  /\ \A i \in 1..Len(vs') :
       LET v == vs'[i][1]  x == o.vs[i] IN
       /\ x.d = v /\ x.i = vs'[i][2]
       /\ SameSet(x.o, OutOf2(v)) /\ x.od = Len(x.o)
       /\ IF Bidirectional(kind')
          THEN SameSet(x.n, InOf2(v)) /\ x.id = Len(x.n) /\ x.dg = x.od + x.id
          ELSE x.n = <<>>
       /\ IF Undirected(kind')
          THEN SameSet(x.rv, {e.id : e \in {y \in Range(es') : y.t = v /\ y.s # v}})
          ELSE x.rv = <<>>
  /\ \A i \in 1..Len(es') :
       LET e == es'[i]  x == o.es[i] IN
       /\ x.d = e.id /\ x.i = e.i /\ x.s = e.s /\ x.t = e.t /\ x.l = (e.s = e.t)

Observed == LET ev == Trace[l] IN
  /\ "obs" \in DOMAIN ev => Match(ev.obs)
  /\ "obc" \in DOMAIN ev => ev.obc = ev.obs      \* const and mutable views agree
Res(r) == Trace[l].res = r

\* the compressed graph c, judged against the current graph
PosIn(v) == CHOOSE i \in 1..Len(vs) : vs[i][1] = v
CsrMatch(c) ==
  LET ce == CsrEdges IN
  /\ c.nv = Len(vs) /\ Len(c.vs) = Len(vs) /\ c.ne = Len(es) /\ Len(c.es) = Len(es)
  /\ \A i \in 1..Len(vs) :
       LET v == vs[i][1]  x == c.vs[i]  o == OutSeq(v) IN
       /\ x.d = v /\ x.o = o /\ x.i = i - 1
       /\ x.od = Len(o) /\ x.sz = Len(o) /\ x.em = (o = <<>>)
       /\ x.f = IF o = <<>> THEN -1 ELSE o[1]
  /\ \A i \in 1..Len(es) :
       LET e == EdgeById(ce[i])  x == c.es[i] IN
       /\ x.d = e.id /\ x.sd = e.s /\ x.td = e.t /\ x.i = i - 1
       /\ x.s = PosIn(e.s) - 1 /\ x.t = PosIn(e.t) - 1

TNew == IsEvent("new") /\ Start(Trace[l].kind)
TAv == IsEvent("av") /\ AddVertex /\ Trace[l].a = nv' /\ Observed /\ Res("ok")
TAe == IsEvent("ae") /\ AddEdge(Trace[l].a, Trace[l].b) /\ Trace[l].id = ne' /\ Observed /\ Res("ok")
TAvf == IsEvent("avf") /\ ((Res("ok") /\ AddVertex) \/ (Res("failed") /\ FailedAdd)) /\ Observed
TAef == IsEvent("aef") /\ ((Res("ok") /\ AddEdge(Trace[l].a, Trace[l].b)) \/ (Res("failed") /\ FailedAdd)) /\ Observed
TRv == IsEvent("rv") /\ ((Res("ok") /\ RemoveVertex(Trace[l].a)) \/ (Res("refused") /\ RemoveVertexRefused(Trace[l].a))) /\ Observed
TRe == IsEvent("re") /\ RemoveEdge(Trace[l].a) /\ Observed /\ Res("ok")
TRb == IsEvent("rb") /\ RemoveBetween(Trace[l].a, Trace[l].b) /\ Observed /\ Res("ok")
TCv == IsEvent("cv") /\ ClearVertex(Trace[l].a) /\ Observed /\ Res("ok")
TRi == IsEvent("ri") /\ Reindex /\ Observed /\ Res("ok")
TCp == IsEvent("cp") /\ Copy /\ Observed /\ Res("ok")
TAs == IsEvent("as") /\ Copy /\ Observed /\ Res("ok")
TEq == IsEvent("eq") /\ UNCHANGED gvars /\ Trace[l].same = (Trace[l].a = Trace[l].b) /\ Observed /\ Res("ok")
TBake == IsEvent("bake") /\ Bake /\ Observed /\ Res("ok")
         /\ CsrMatch(Trace[l].csr) /\ Trace[l].csr2 = Trace[l].csr /\ Trace[l].csr3 = Trace[l].csr
\* written to disk and read back
TDump == IsEvent("dump") /\ Bake /\ Observed /\ Res("ok") /\ CsrMatch(Trace[l].csr)

TraceNext == TNew \/ TAv \/ TAe \/ TAvf \/ TAef \/ TRv \/ TRe \/ TRb \/ TCv \/ TRi \/ TCp \/ TAs \/ TEq \/ TBake \/ TDump
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
