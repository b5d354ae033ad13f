--------------------------- MODULE Coordinator ---------------------------
(* A queue of tasks, a coordinator that takes them from it, and workers that do them (C15).
   Tasks are 1, 2, .. in the order they are queued. At most Q tasks wait in the queue, and at most Q have been handed to the
   W workers without being finished.                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Fresh == [next |-> 1, in |-> FALSE, q |-> <<>>, closed |-> FALSE, hand |-> 0, out |-> 0, pool |-> <<>>, run |-> {}, done |-> <<>>,
          gone |-> FALSE, over |-> FALSE]
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* the producer
CanIn(S) == ~S.in /\ ~S.closed
In(S) == [S EXCEPT !.in = TRUE]
CanQueue(S, Q) == S.in /\ Len(S.q) < Q
Queue(S) == [S EXCEPT !.in = FALSE, !.q = Append(@, S.next), !.next = @ + 1]
CanStop(S) == ~S.in /\ ~S.closed
Stop(S) == [S EXCEPT !.closed = TRUE]
\* the coordinator
CanPull(S) == ~S.gone /\ S.hand = 0 /\ S.q # <<>>
Pull(S) == [S EXCEPT !.hand = Head(S.q), !.q = Tail(@)]
CanGive(S, Q) == S.hand # 0 /\ S.out < Q
Give(S) == [S EXCEPT !.out = @ + 1, !.pool = Append(@, S.hand), !.hand = 0]
CanLeave(S) == ~S.gone /\ S.hand = 0 /\ S.q = <<>> /\ S.closed
Leave(S) == [S EXCEPT !.gone = TRUE]
\* the workers; a task that fails is finished as well
CanStart(S, W) == S.pool # <<>> /\ Cardinality(S.run) < W
Start(S) == [S EXCEPT !.run = @ \cup {Head(S.pool)}, !.pool = Tail(@)]
Finish(S, k) == [S EXCEPT !.run = @ \ {k}, !.done = Append(@, k), !.out = @ - 1]
\* waiting for the end
CanJoin(S) == S.gone /\ S.pool = <<>> /\ S.run = {} /\ ~S.over
Join(S) == [S EXCEPT !.over = TRUE]
\* ---- what is promised
Queued(S) == 1..(S.next - 1)
Kept(S) == S.q \o (IF S.hand = 0 THEN <<>> ELSE <<S.hand>>) \o S.pool     \* waiting somewhere
Once(S) ==        \* every queued task is in exactly one place
  /\ SetOf(Kept(S)) \cup S.run \cup SetOf(S.done) = Queued(S)
  /\ Len(Kept(S)) + Cardinality(S.run) + Len(S.done) = S.next - 1
Bounded(S, Q, W) == Len(S.q) <= Q /\ S.out <= Q /\ Cardinality(S.run) <= W /\ S.out = Len(S.pool) + Cardinality(S.run)
Unfinished(Q) == 2 * Q + 1
All(S) == S.over => SetOf(S.done) = Queued(S)
InOrder(S, W) == W = 1 => \A i \in 1..Len(S.done) : S.done[i] = i
==============================================================================
