------------------------- MODULE CoordinatorTrace -------------------------
(* Accepts recorded histories of the real coordinator, and of whole programs that match tracks with it. Steps inside cannot be seen. *)
EXTENDS Coordinator, Json, IOUtils, TLC
VARIABLES l, T
vars == <<l, T>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
None == [q |-> 0, w |-> 0, asked |-> {}, queued |-> {}, run |-> {}, done |-> {}, last |-> 0, stopped |-> FALSE, over |-> FALSE]
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])
Step ==
  CASE e.op = "begin" -> T' = None
    [] e.op = "cfg" -> T' = [None EXCEPT !.q = e.q, !.w = e.w]
    [] e.op = "in" -> ~T.stopped /\ e.k \notin T.asked /\ T' = [T EXCEPT !.asked = @ \cup {e.k}]
    [] e.op = "queued" -> /\ e.k \in T.asked \ T.queued
                          /\ Cardinality((T.queued \cup {e.k}) \ T.done) <= Unfinished(T.q)
                          /\ T' = [T EXCEPT !.queued = @ \cup {e.k}]
    \* started once, not before it was queued nor after the end, by one of the workers; a single worker keeps the order
    [] e.op = "start" -> /\ e.k \in T.asked /\ e.k \notin T.run \cup T.done /\ ~T.over
                         /\ Cardinality(T.run) < T.w
                         /\ (IF T.w = 1 THEN e.k = T.last + 1 ELSE TRUE)
                         /\ T' = [T EXCEPT !.run = @ \cup {e.k}, !.last = e.k]
    [] e.op = "done" -> e.k \in T.run /\ ~T.over /\ T' = [T EXCEPT !.run = @ \ {e.k}, !.done = @ \cup {e.k}]
    [] e.op = "stop" -> T.asked = T.queued /\ T' = [T EXCEPT !.stopped = TRUE]
    [] e.op = "joined" -> T.stopped /\ T.run = {} /\ T.done = T.queued /\ T' = [T EXCEPT !.over = TRUE]
    \* a whole program: the results do not depend on the number of threads, and with one they are in order
    [] e.op = "net" -> T' = T
    [] e.op = "program" -> SameBag(e.want, e.got) /\ (IF e.w = 1 THEN e.got = e.want ELSE TRUE) /\ T' = T
    [] OTHER -> FALSE
Init == l = 1 /\ T = None
Next == l <= Len(Trace) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
==============================================================================
