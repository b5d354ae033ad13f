-------------------------- MODULE CoordinatorGen --------------------------
(* Schedules to run in the real code: each takes the possible steps in an order of its own; what can be seen from outside is kept. *)
EXTENDS Coordinator, TLC, Json
CONSTANTS N, QMax, WMax, Schedules
VARIABLES S, c, seen, i
vars == <<S, c, seen, i>>
Len0 == 12 * N
Gen(k) == [q |-> RandomElement(1..QMax), w |-> RandomElement(1..WMax), n |-> RandomElement(0..N), fail |-> RandomElement(SUBSET (1..N)),
           lazy |-> RandomElement({0, 0, 1, 2}), pick |-> [j \in 1..Len0 |-> RandomElement(0..59)]]
Init == \E k \in 1..Schedules : \E x \in {Gen(k)} : S = Fresh /\ c = x /\ seen = <<>> /\ i = 1
\* the possible steps; with lazy = 1 tasks are finished only when nothing else can happen, with 2 the coordinator waits
Steps ==
  LET p == (IF CanIn(S) /\ S.next <= c.n THEN <<<<"B", S.next>>>> ELSE <<>>) \o (IF CanQueue(S, c.q) THEN <<<<"P", S.next>>>> ELSE <<>>)
           \o (IF CanStop(S) /\ S.next > c.n THEN <<<<"X", 0>>>> ELSE <<>>)
      k == (IF CanPull(S) THEN <<<<"pull", 0>>>> ELSE <<>>) \o (IF CanGive(S, c.q) THEN <<<<"give", 0>>>> ELSE <<>>)
           \o (IF CanLeave(S) THEN <<<<"leave", 0>>>> ELSE <<>>) \o (IF CanJoin(S) THEN <<<<"J", 0>>>> ELSE <<>>)
      w == IF CanStart(S, c.w) THEN <<<<"S", Head(S.pool)>>>> ELSE <<>>
      f == [j \in 1..Cardinality(S.run) |-> <<"F", CHOOSE x \in S.run : Cardinality({y \in S.run : y < x}) = j - 1>>]
      all == IF c.lazy = 2 /\ p # <<>> THEN p ELSE p \o k \o w IN
  IF c.lazy = 1 /\ all # <<>> THEN all ELSE IF c.lazy = 2 /\ p # <<>> THEN p ELSE all \o f
Do(x) ==
  CASE x[1] = "B" -> In(S) [] x[1] = "P" -> Queue(S) [] x[1] = "X" -> Stop(S) [] x[1] = "pull" -> Pull(S) [] x[1] = "give" -> Give(S)
    [] x[1] = "leave" -> Leave(S) [] x[1] = "J" -> Join(S) [] x[1] = "S" -> Start(S) [] x[1] = "F" -> Finish(S, x[2])
Next == /\ ~S.over
        /\ LET s == Steps  x == s[1 + (c.pick[1 + (i % Len0)] % Len(s))] IN
           /\ S' = Do(x) /\ seen' = (IF x[1] \in {"pull", "give", "leave"} THEN seen ELSE Append(seen, x)) /\ i' = i + 1 /\ UNCHANGED c
           /\ (IF x[1] = "J" THEN PrintT("@@" \o ToJson([q |-> c.q, w |-> c.w, fail |-> c.fail, seen |-> seen'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
Safe == Once(S) /\ Bounded(S, c.q, c.w) /\ All(S)
==============================================================================
