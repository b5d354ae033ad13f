------------------------------- MODULE TagsMC -------------------------------
(* The store as it is built: six maps filled one after the other, any        *)
(* insertion may find no memory; then the half-done pair is taken back, the  *)
(* storage grows and the whole operation starts again. Must refine Tags.     *)
EXTENDS Tags, Json
CONSTANTS K, V, MaxLen, Fails
VARIABLES key, keyR, val, valR, ids, tagR,    \* id_of_key / key_of_id, ... as sets of pairs
          nodes, edges, fin, pc, fails, cur, hist, before

store == <<key, keyR, val, valR, ids, tagR, nodes, edges, fin>>
vars == <<key, keyR, val, valR, ids, tagR, nodes, edges, fin, pc, fails, cur, hist, before>>
Abs == [tags |-> {<<t[1], (CHOOSE x \in keyR : x[1] = t[2][1])[2], (CHOOSE x \in valR : x[1] = t[2][2])[2]>> : t \in tagR},
        nodes |-> nodes, edges |-> edges, fin |-> fin]
Idle == pc = "idle"
FnD(s, k) == \E x \in s : x[1] = k
FnG(s, k) == (CHOOSE x \in s : x[1] = k)[2]

Init == /\ key = {} /\ keyR = {} /\ val = {} /\ valR = {} /\ ids = {} /\ tagR = {}
        /\ nodes = NoTags /\ edges = NoTags /\ fin = FALSE
        /\ pc = "idle" /\ fails = Fails /\ cur = <<>> /\ hist = <<>> /\ before = EmptyStore

Begin(c) == Idle /\ Len(hist) < MaxLen /\ before' = Abs /\ cur' = c /\ hist' = Append(hist, c)
\* ---- interning, step by step
StartId == /\ \E k \in K, v \in V : Begin(<<"id", k, v>>)
           /\ ~fin /\ pc' = "key" /\ UNCHANGED <<store, fails>>
Fail == /\ ~Idle /\ fails > 0 /\ fails' = fails - 1
        /\ pc' = "key"                       \* grow and start over
        /\ UNCHANGED <<key, keyR, val, valR, ids, tagR, nodes, edges, fin, cur, hist, before>>
KeyStep == /\ pc = "key" /\ pc' = "val"
           /\ IF FnD(key, cur[2]) THEN UNCHANGED <<key, keyR>>
              ELSE key' = key \cup {<<cur[2], Cardinality(key)>>} /\ keyR' = keyR \cup {<<Cardinality(key), cur[2]>>}
           /\ UNCHANGED <<val, valR, ids, tagR, nodes, edges, fin, fails, cur, hist, before>>
ValStep == /\ pc = "val" /\ pc' = "tag"
           /\ IF FnD(val, cur[3]) THEN UNCHANGED <<val, valR>>
              ELSE val' = val \cup {<<cur[3], Cardinality(val)>>} /\ valR' = valR \cup {<<Cardinality(val), cur[3]>>}
           /\ UNCHANGED <<key, keyR, ids, tagR, nodes, edges, fin, fails, cur, hist, before>>
TagStep == /\ pc = "tag" /\ pc' = "idle"
           /\ LET p == <<FnG(key, cur[2]), FnG(val, cur[3])>> IN
              IF FnD(ids, p) THEN UNCHANGED <<ids, tagR>>
              ELSE ids' = ids \cup {<<p, Cardinality(ids)>>} /\ tagR' = tagR \cup {<<Cardinality(ids), p>>}
           /\ UNCHANGED <<key, keyR, val, valR, nodes, edges, fin, fails, cur, hist, before>>
\* ---- mappings
Ids == {t[1] : t \in tagR}
Atomic(m, f) == /\ IF m = "nodes" THEN nodes' = f /\ UNCHANGED edges ELSE edges' = f /\ UNCHANGED nodes
                /\ UNCHANGED <<key, keyR, val, valR, ids, tagR, fin, fails, pc>>
Set == \E m \in {"nodes", "edges"}, n \in 1..NMax, q \in {<<i>> : i \in Ids} \cup {<<i, j>> : i, j \in Ids} :
         /\ Begin(<<"set", m, n, [x \in 1..Len(q) |-> PairOf(Abs, q[x])]>>)
         /\ Atomic(m, Map(Put(Abs, m, n, q), m))
Merge == \E n, o \in 1..NMax :
         /\ Begin(<<"merge", n, o>>)
         /\ Atomic("edges", IF n = o THEN edges ELSE [edges EXCEPT ![n] = @ \o SelectSeq(edges[o], LAMBDA i : i \notin SetOf(edges[n]))])
Finalize == /\ Begin(<<"fin">>) /\ ~fin /\ fin' = TRUE
            /\ UNCHANGED <<key, keyR, val, valR, ids, tagR, nodes, edges, fails, pc>>
Next == StartId \/ Fail \/ KeyStep \/ ValStep \/ TagStep \/ Set \/ Merge \/ Finalize
Spec == Init /\ [][Next]_vars

\* when an operation is over the store is what the specification says
Refines == (Idle /\ cur # <<>>) =>
  CASE cur[1] = "id" -> \E r \in Ids : OpId(before, Abs, cur[2], cur[3], r)
    [] cur[1] = "set" -> OpSet(before, Abs, cur[2], cur[3], [x \in 1..Len(cur[4]) |-> IdOf(before, cur[4][x][1], cur[4][x][2])])
    [] cur[1] = "merge" -> OpMerge(before, Abs, cur[2], cur[3])
    [] OTHER -> OpFinalize(before, Abs)
TwoWay == Idle => Sound(Abs) /\ Cardinality(key) = Cardinality(keyR) /\ Cardinality(ids) = Cardinality(tagR)
View == <<store, pc, fails, cur, before, Len(hist)>>
Emit == (pc' = "idle" /\ hist' # <<>>) => PrintT("@@" \o ToJson(hist'))
=============================================================================
