------------------------------- MODULE Files -------------------------------
(* One memory-mapped file and the ways to open, grow, shrink, share and lose *)
(* it. st = [kind |-> "absent"|"plain"|"store", by |-> build that wrote it,  *)
(* vals |-> its content, h |-> "none"|"rw"|"ro"|"cow" (how it is open here), *)
(* hv |-> the content this handle shows]                                     *)
EXTENDS Naturals, Sequences
Closed == [kind |-> "absent", by |-> "own", vals |-> <<>>, h |-> "none", hv |-> <<>>]

\* what a build `who` gets that opens the file in a mode
Answer(st, who, mode) ==
  CASE mode = "fresh" -> "ok"
    [] mode = "create" -> IF st.kind = "absent" THEN "ok" ELSE "missing"
    [] mode = "openc" /\ st.kind = "absent" -> "ok"
    [] st.kind = "absent" -> "missing"
    [] st.kind = "plain" -> "refused"
    [] OTHER -> IF st.by = who THEN "ok" ELSE "refused"
Makes(st, mode) == mode = "fresh" \/ st.kind = "absent"
Created(st, who) == [st EXCEPT !.kind = "store", !.by = who, !.vals = <<>>]
OpenedFile(st, who, mode) == IF Answer(st, who, mode) = "ok" /\ Makes(st, mode) THEN Created(st, who) ELSE st

Open(st, mode) == LET f == OpenedFile(st, "own", mode) IN
  IF Answer(st, "own", mode) = "ok" THEN [f EXCEPT !.h = IF mode \in {"ro", "cow"} THEN mode ELSE "rw", !.hv = f.vals]
  ELSE [f EXCEPT !.h = "none", !.hv = <<>>]
Put(st, v) == IF st.h = "cow" THEN [st EXCEPT !.hv = Append(@, v)]
              ELSE [st EXCEPT !.vals = Append(@, v), !.hv = Append(@, v)]
Close(st) == [st EXCEPT !.h = "none", !.hv = <<>>]
DropGrow(st) == [st EXCEPT !.vals = <<>>, !.hv = <<>>]
Destroy(st) == [Close(st) EXCEPT !.kind = "absent", !.vals = <<>>]
Plain(st) == [Close(st) EXCEPT !.kind = "plain", !.vals = <<>>]
\* a differing build opens the file and puts 77 unless it reads only
Other(st, who, mode) == LET f == OpenedFile(st, who, mode) IN
  IF Answer(st, who, mode) = "ok" /\ mode \notin {"ro", "cow"} THEN [f EXCEPT !.vals = Append(@, 77)] ELSE f
=============================================================================
