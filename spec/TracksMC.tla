---------------------------- MODULE TracksMC ----------------------------
(* Reading row by row, as a program does that has to pass on tracks as early as possible, against what the rows mean. *)
EXTENDS Tracks, Json
CONSTANTS N, Ids, Ts
VARIABLES rows, grouped, n, open, cur, passed
vars == <<rows, grouped, n, open, cur, passed>>
c == [noid |-> FALSE, whole |-> FALSE, agg |-> "_", sel |-> <<>>]
Row == {[f |-> 0, id |-> <<i>>, t |-> t, k |-> "P"] : i \in Ids, t \in Ts} \cup {[f |-> 0, id |-> <<i>>, t |-> 0, k |-> "L"] : i \in Ids}
Put(s) == [i \in 1..Len(s) |-> [f |-> s[i].f, id |-> s[i].id, t |-> s[i].t, k |-> s[i].k,
                                ls |-> IF s[i].k = "P" THEN <<<<<<i, s[i].t>>>>>> ELSE <<<<<<i, 0>>, <<i, 9>>>>>>]]
Init == /\ rows \in UNION {{Put(s) : s \in [1..k -> Row]} : k \in 0..N}
        /\ grouped \in (IF Grouped(c, rows) THEN BOOLEAN ELSE {FALSE})
        /\ n = 1 /\ open = <<>> /\ cur = <<>> /\ passed = <<>>
\* insert a measurement after all that are not later
RECURSIVE Insert(_, _)
Insert(s, m) == IF s = <<>> \/ s[Len(s)].t <= m.t THEN Append(s, m) ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), m), s[Len(s)])
Flushed == passed \o [i \in 1..Len(open) |-> [id |-> open[i].id, ls |-> <<[j \in 1..Len(open[i].ms) |-> open[i].ms[j].p]>>]]
At(o, id) == {i \in 1..Len(o) : o[i].id = id}
Read ==
  /\ n <= Len(rows)
  /\ LET r == rows[n]  id == r.id[1]
         flush == grouped /\ cur # <<>> /\ cur # <<id>>
         o == IF flush THEN <<>> ELSE open
         p == IF flush THEN Flushed ELSE passed
         m == [t |-> r.t, p |-> r.ls[1][1]] IN
     /\ n' = n + 1 /\ cur' = <<id>> /\ UNCHANGED <<rows, grouped>>
     /\ IF r.k = "L" THEN passed' = Append(p, [id |-> id, ls |-> r.ls]) /\ open' = o
        ELSE /\ passed' = p
             /\ open' = IF At(o, id) = {} THEN Append(o, [id |-> id, ms |-> <<m>>])
                        ELSE [i \in 1..Len(o) |-> IF i \in At(o, id) THEN [o[i] EXCEPT !.ms = Insert(@, m)] ELSE o[i]]
End == /\ n = Len(rows) + 1 /\ n' = n + 1 /\ passed' = Flushed /\ open' = <<>> /\ UNCHANGED <<rows, grouped, cur>>
       /\ PrintT("@@" \o ToJson([g |-> grouped, rows |-> rows]))
Next == Read \/ End
Spec == Init /\ [][Next]_vars
Right == n = Len(rows) + 2 => SameBag(passed, TracksOf(c, rows))
\* nothing is passed on that is not complete
Early == \A i \in 1..Len(passed) : Times(TracksOf(c, rows), passed[i]) >= Times(SubSeq(passed, 1, i), passed[i])
==============================================================================
