----------------------------- MODULE SearchTrace -----------------------------
(* Accepts the recorded results of the real searches. *)
EXTENDS Search, Json, IOUtils
VARIABLES l, G
Trace == ndJsonDeserialize(IOEnv.TRACE)
logline == Trace[l]
IsEvent(o) == l <= Len(Trace) /\ logline.op = o /\ l' = l + 1

NewGraph == IsEvent("graph") /\ G' = [n |-> logline.n, es |-> logline.es]
Traverse == /\ l <= Len(Trace) /\ logline.op \in {"bfs", "dfs"} /\ l' = l + 1 /\ UNCHANGED G
            /\ TraversalOk(G, logline.s, logline.op, logline.stop, logline.log)
            \* the order in which a breadth-first search examines vertices never decreases in hops
            /\ logline.op = "bfs" =>
                 LET hp == HopsFrom(G, logline.s)
                     xs == SelectSeq(logline.log, LAMBDA e : e[1] = "x")
                 IN \A i \in 1..(Len(xs) - 1) : hp[xs[i][2]] <= hp[xs[i+1][2]]
Dijkstra == /\ IsEvent("dij") /\ UNCHANGED G
            /\ LET d == DistFrom(G, logline.s) IN
               \A v \in Vs(G) :
                 /\ logline.dist[v] = (IF d[v] = INF THEN -1 ELSE d[v])
                 /\ IF d[v] = INF THEN logline.pred[v] = -1
                    ELSE IF v = logline.s THEN logline.pred[v] = v
                    ELSE logline.pred[v] \in Vs(G) /\ d[logline.pred[v]] + Best(G, logline.pred[v], v) = d[v]
Paths == /\ l <= Len(Trace) /\ logline.op \in {"net", "astar"} /\ l' = l + 1 /\ UNCHANGED G
         /\ PathsOk(G, logline.s, SetOf2(logline.goals), logline.lim, logline.tol, logline.paths)
         /\ Len(logline.routes) = Len(logline.paths)
         /\ \A i \in 1..Len(logline.paths) :
              LET p == logline.paths[i]  r == logline.routes[i] IN
              /\ RouteOk(G, p, r.es) /\ r.len - PathCost(G, p) \in (-logline.tol)..logline.tol /\ ~r.inv

Init == l = 1 /\ G = [n |-> 0, es |-> <<>>]
Next == NewGraph \/ Traverse \/ Dijkstra \/ Paths
Spec == Init /\ [][Next]_<<l, G>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
