------------------------------- MODULE Graph -------------------------------
(* C01 / C02.  A mutable graph: vertices and edges in order of insertion,   *)
(* each with an identity (its data) and an index, plus every modification   *)
(* the public interface offers.  One action per public call.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Kinds == {"dir", "bi", "und", "vdir", "vbi", "vund"}

VARIABLES kind,     \* directedness and container kind; "v..." never removes
          vs,       \* sequence of <<vertex id, index>>
          es,       \* sequence of [id, s, t, i]
          nv, ne    \* identities handed out so far

gvars == <<kind, vs, es, nv, ne>>

Undirected(k) == k \in {"und", "vund"}
Bidirectional(k) == k \in {"bi", "vbi"}
Removable(k) == k \in {"dir", "bi", "und"}

VIds == {vs[i][1] : i \in 1..Len(vs)}
EIds == {es[i].id : i \in 1..Len(es)}
Filter(s, P(_)) == SelectSeq(s, P)

\* incidence, as defined by the edges alone
OutOf(v) == {es[i].id : i \in {j \in 1..Len(es) :
                es[j].s = v \/ (Undirected(kind) /\ es[j].t = v)}}
InOf(v) == {es[i].id : i \in {j \in 1..Len(es) : es[j].t = v}}
Touching(v) == {es[i].id : i \in {j \in 1..Len(es) : es[j].s = v \/ es[j].t = v}}
OutSeq(v) == LET f == SelectSeq(es, LAMBDA e : e.s = v) IN [i \in 1..Len(f) |-> f[i].id]
Indexed == /\ \A i \in 1..Len(vs) : vs[i][2] = i - 1
           /\ \A i \in 1..Len(es) : es[i].i = i - 1

Start(k) == /\ kind' = k /\ vs' = <<>> /\ es' = <<>> /\ nv' = 0 /\ ne' = 0

AddVertex == /\ vs' = Append(vs, <<nv + 1, Len(vs)>>)
             /\ nv' = nv + 1
             /\ UNCHANGED <<kind, es, ne>>

AddEdge(s, t) == /\ {s, t} \subseteq VIds
                 /\ es' = Append(es, [id |-> ne + 1, s |-> s, t |-> t, i |-> Len(es)])
                 /\ ne' = ne + 1
                 /\ UNCHANGED <<kind, vs, nv>>

\* an addition that runs out of memory leaves no trace
FailedAdd == UNCHANGED gvars

\* incoming edges of a one-way graph are not recorded at the vertex: removing is then only
\* allowed (by contract) when there are none
RemoveVertexEnabled(v) == /\ Removable(kind) /\ v \in VIds
                          /\ (kind = "dir" => \A i \in 1..Len(es) : es[i].t = v => es[i].s = v)
RemoveVertexRefused(v) == /\ RemoveVertexEnabled(v) /\ Touching(v) # {}
                          /\ UNCHANGED gvars
RemoveVertex(v) == /\ RemoveVertexEnabled(v) /\ Touching(v) = {}
                   /\ vs' = SelectSeq(vs, LAMBDA x : x[1] # v)
                   /\ UNCHANGED <<kind, es, nv, ne>>

RemoveEdge(e) == /\ Removable(kind) /\ e \in EIds
                 /\ es' = SelectSeq(es, LAMBDA x : x.id # e)
                 /\ UNCHANGED <<kind, vs, nv, ne>>

RemoveBetween(s, t) == /\ Removable(kind) /\ {s, t} \subseteq VIds
                       /\ es' = SelectSeq(es, LAMBDA x : ~(x.s = s /\ x.t = t))
                       /\ UNCHANGED <<kind, vs, nv, ne>>

ClearVertex(v) == /\ Removable(kind) /\ v \in VIds
                  /\ es' = SelectSeq(es, LAMBDA x : x.s # v /\ x.t # v)
                  /\ UNCHANGED <<kind, vs, nv, ne>>

Reindex == /\ Removable(kind)
           /\ vs' = [i \in 1..Len(vs) |-> <<vs[i][1], i - 1>>]
           /\ es' = [i \in 1..Len(es) |-> [es[i] EXCEPT !.i = i - 1]]
           /\ UNCHANGED <<kind, nv, ne>>

\* copying and building the compressed form need current indices
Copy == Indexed /\ UNCHANGED gvars
Bake == Indexed /\ UNCHANGED gvars

-----------------------------------------------------------------------------
(* The compressed form of the current graph, as a function of it.            *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
CsrEdges == Concat([i \in 1..Len(vs) |-> OutSeq(vs[i][1])])      \* edge ids, row by row
PosOf(v) == CHOOSE i \in 1..Len(vs) : vs[i][1] = v
EdgeById(e) == es[CHOOSE i \in 1..Len(es) : es[i].id = e]

-----------------------------------------------------------------------------
(* Consistency every reachable state must have. *)
NoDangling == \A i \in 1..Len(es) : es[i].s \in VIds /\ es[i].t \in VIds
Distinct == /\ Cardinality(VIds) = Len(vs) /\ Cardinality(EIds) = Len(es)
RowsPartition == /\ Len(CsrEdges) = Len(es)
                 /\ {CsrEdges[i] : i \in 1..Len(CsrEdges)} = EIds
RECURSIVE Sum(_, _)
Sum(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + Sum(f, S \ {x})
Handshake == /\ Sum(LAMBDA v : Cardinality(InOf(v)), VIds) = Len(es)
             /\ ~Undirected(kind) => Sum(LAMBDA v : Cardinality(OutOf(v)), VIds) = Len(es)
Inv == NoDangling /\ Distinct /\ RowsPartition /\ Handshake
=============================================================================
