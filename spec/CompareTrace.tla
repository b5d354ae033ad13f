---------------------------- MODULE CompareTrace ----------------------------
(* Accepts the recorded results of the real comparison. *)
EXTENDS Compare, Json, IOUtils, TLC
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
Inf == -1
NearL(r, x, y, n) == Abs(x - y) <= r.slack * (n + 1) + n
\* fractions follow from the lengths (1/1000 each)
IsFrac(f, num, den) == Abs(f * den - 1000 * num) <= 2 * den + 4000 + Abs(f)
ErrorF(r) == IF r.add = 0 /\ r.miss = 0 THEN r.ef = 0
             ELSE IF r.gt > 0 THEN IsFrac(r.ef, r.add + r.miss, r.gt) ELSE r.ef = Inf
CorrectF(r) == IF r.ef = 0 THEN r.cf = 1000
               ELSE IF r.gt > 0 /\ r.mt > 0 THEN IsFrac(r.cf, r.correct, Max(r.gt, r.mt)) /\ r.cf >= 0 /\ r.cf <= 1000
               ELSE r.cf = 0
Result(r) ==
  LET a == TLCEval(StepsOfAll(r.a))  b == TLCEval(StepsOfAll(r.b))
      c == TLCEval(StepsOfAll(r.corrects))  m == TLCEval(StepsOfAll(r.misses))  d == TLCEval(StepsOfAll(r.adds)) IN
  /\ Accounted(a, b, c, m, d)
  /\ NearL(r, r.correct, Metres(c), Len(c)) /\ NearL(r, r.miss, Metres(m), Len(m)) /\ NearL(r, r.add, Metres(d), Len(d))
  /\ NearL(r, r.gt, Metres(a), Len(a)) /\ NearL(r, r.mt, Metres(b), Len(b))
  /\ (m = <<>> => r.miss = 0) /\ (d = <<>> => r.add = 0)
  \* a ground truth or match without extent next to one that is missing is not judged
  /\ (a = <<>> /\ b = <<>> /\ r.ea # r.eb) \/ (ErrorF(r) /\ CorrectF(r))
Cmp == e.op = "cmp" /\ Result(e)
\* the whole program: one row for every ground truth, whichever way around they are read; one without match is completely wrong
Has(s, x) == \E k \in 1..Len(s) : s[k] = x
All == /\ e.op = "all"
       /\ \A k \in 1..Len(e.rows) : LET r == e.rows[k] IN
            /\ Has(e.truths, r.id) /\ (e.ign => Has(e.matches, r.id))
            /\ \A n \in 1..(k - 1) : e.rows[n].id # r.id
            /\ r.truth = r.a /\ r.match = r.b /\ Result(r)
       /\ \A k \in 1..Len(e.truths) : IF e.ign THEN IF Has(e.matches, e.truths[k]) THEN \E n \in 1..Len(e.rows) : e.rows[n].id = e.truths[k] ELSE TRUE
                                      ELSE \E n \in 1..Len(e.rows) : e.rows[n].id = e.truths[k]
Begin == e.op = "begin"
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Cmp \/ All)
Spec == Init /\ [][Next]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"MM2REJECT", d>>) /\ FALSE
=============================================================================
