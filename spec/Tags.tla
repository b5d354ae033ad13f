-------------------------------- MODULE Tags --------------------------------
(* A tag store: interned (key, value) tags and the tag lists of nodes and   *)
(* edges. Strings are numbers; identities are whatever the store hands out. *)
(* T = [tags |-> set of <<id, k, v>>, nodes |-> [N -> Seq(id)],             *)
(*      edges |-> [N -> Seq(id)], fin |-> BOOLEAN]                          *)
(* An element without tags and an element never given any are the same.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT NMax

SetOf(q) == {q[i] : i \in 1..Len(q)}
NoTags == [n \in 1..NMax |-> <<>>]
EmptyStore == [tags |-> {}, nodes |-> NoTags, edges |-> NoTags, fin |-> FALSE]

Known(T, k, v) == \E t \in T.tags : t[2] = k /\ t[3] = v
IdOf(T, k, v) == (CHOOSE t \in T.tags : t[2] = k /\ t[3] = v)[1]
PairOf(T, i) == LET t == CHOOSE u \in T.tags : u[1] = i IN <<t[2], t[3]>>
HasId(T, i) == \E t \in T.tags : t[1] = i
\* identities are unique both ways
Sound(T) == /\ \A t, u \in T.tags : (t[1] = u[1]) = (<<t[2], t[3]>> = <<u[2], u[3]>>)
            /\ \A n \in 1..NMax : \A i \in SetOf(T.nodes[n]) \cup SetOf(T.edges[n]) : HasId(T, i)

Map(T, m) == IF m = "nodes" THEN T.nodes ELSE T.edges
WithMap(T, m, f) == IF m = "nodes" THEN [T EXCEPT !.nodes = f] ELSE [T EXCEPT !.edges = f]

\* T2 interns all of `pairs` (and nothing else) in addition to T
Interned(T, T2, pairs) ==
  /\ T.tags \subseteq T2.tags
  /\ \A t \in T2.tags \ T.tags : <<t[2], t[3]>> \in pairs /\ ~HasId(T, t[1]) /\ ~Known(T, t[2], t[3])
  /\ Sound(T2)
\* the list that a store must hold for these pairs
Lookup(T, pairs) == [i \in 1..Len(pairs) |-> IdOf(T, pairs[i][1], pairs[i][2])]
Pairs(T, ids) == [i \in 1..Len(ids) |-> PairOf(T, ids[i])]
\* the first tags given to an element stay
Put(T, m, n, ids) == IF Map(T, m)[n] = <<>> THEN WithMap(T, m, [Map(T, m) EXCEPT ![n] = ids]) ELSE T

(* ---- operations: each relates the store before to the store after ---- *)
OpId(T, T2, k, v, r) ==
  /\ ~T.fin /\ Interned(T, T2, {<<k, v>>}) /\ Known(T2, k, v) /\ r = IdOf(T2, k, v)
  /\ T2 = [T EXCEPT !.tags = T2.tags]
OpIdRefused(T, T2) == T.fin /\ T2 = T
\* identities already handed out are mapped
OpSet(T, T2, m, n, ids) == T2 = Put(T, m, n, ids)
\* a list of tags (as read from OpenStreetMap), or the tags of an element of another store
OpPairs(T, T2, m, n, pairs) ==
  /\ Interned(T, T2, SetOf(pairs))
  /\ IF Map(T, m)[n] # <<>> \/ pairs = <<>>
     THEN T2 = [T EXCEPT !.tags = T2.tags]
     ELSE /\ \A p \in SetOf(pairs) : Known(T2, p[1], p[2])
          /\ T2 = Put([T EXCEPT !.tags = T2.tags], m, n, Lookup(T2, pairs))
OpMerge(T, T2, n, o) ==
  LET missing == SelectSeq(T.edges[o], LAMBDA i : i \notin SetOf(T.edges[n]))
  IN T2 = IF n = o THEN T ELSE [T EXCEPT !.edges[n] = @ \o missing]
OpFinalize(T, T2) == T2 = [T EXCEPT !.fin = TRUE]
OpKeep(T, T2) == T2 = T
=============================================================================
