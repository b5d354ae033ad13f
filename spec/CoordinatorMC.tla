-------------------------- MODULE CoordinatorMC --------------------------
(* All schedules of one producer, the coordinator and the workers; the producer may stop after any number of tasks.
   The coordinator asks twice before it leaves: is the queue closed, is it empty; each is a step of its own. Asked the other way
   round (ClosedFirst = FALSE) tasks are lost that are queued in between (CoordinatorMC_lost.cfg has to fail).            *)
EXTENDS Coordinator, TLC
CONSTANTS N, QMax, WMax, ClosedFirst
VARIABLES S, Q, W, pc
vars == <<S, Q, W, pc>>
Init == S = Fresh /\ pc = "ask" /\ Q \in 1..QMax /\ W \in 1..WMax
Same == UNCHANGED <<Q, W, pc>>
Co(from, to) == pc = from /\ pc' = to /\ UNCHANGED <<Q, W>>
Idle == ~S.gone /\ S.hand = 0
Closed == S.closed
Empty == S.q = <<>>
PIn == CanIn(S) /\ S.next <= N /\ S' = In(S) /\ Same
PQueue == CanQueue(S, Q) /\ S' = Queue(S) /\ Same
PStop == CanStop(S) /\ S' = Stop(S) /\ Same
CAsk == Idle /\ Co("ask", IF (ClosedFirst /\ Closed) \/ (~ClosedFirst /\ Empty) THEN "again" ELSE "pull") /\ S' = S
CAgain == Idle /\ Co("again", IF (ClosedFirst /\ Empty) \/ (~ClosedFirst /\ Closed) THEN "leave" ELSE "pull") /\ S' = S
CPull == CanPull(S) /\ Co("pull", "ask") /\ S' = Pull(S)
CNone == Idle /\ Closed /\ Empty /\ Co("pull", "ask") /\ S' = S
CGive == CanGive(S, Q) /\ S' = Give(S) /\ Same
CLeave == ~S.gone /\ Co("leave", "leave") /\ S' = Leave(S)
WStart == CanStart(S, W) /\ S' = Start(S) /\ Same
WFinish == \E k \in S.run : S' = Finish(S, k) /\ Same
PJoin == CanJoin(S) /\ S' = Join(S) /\ Same
Next == PIn \/ PQueue \/ PStop \/ CAsk \/ CAgain \/ CPull \/ CNone \/ CGive \/ CLeave \/ WStart \/ WFinish \/ PJoin
Fair == WF_vars(PQueue) /\ WF_vars(PStop) /\ WF_vars(CAsk) /\ WF_vars(CAgain) /\ WF_vars(CPull) /\ WF_vars(CNone) /\ WF_vars(CGive) /\ WF_vars(CLeave) /\ WF_vars(WStart) /\ WF_vars(WFinish) /\ WF_vars(PJoin)
        /\ WF_vars(PIn \/ PStop)
Spec == Init /\ [][Next]_vars /\ Fair
Leaves == S.gone => S.q = <<>> /\ S.closed        \* as CanLeave says
Safe == Leaves /\ Once(S) /\ Bounded(S, Q, W) /\ All(S) /\ InOrder(S, W) /\ Len(Kept(S)) + Cardinality(S.run) <= Unfinished(Q)
Ends == <>(S.over /\ Len(S.done) = S.next - 1)
==============================================================================
