----------------------------- MODULE CompareMC -----------------------------
(* The mechanism behind C12: both lines are walked together step by step, going back and forth is set aside, otherwise the
   next common place is looked for; afterwards what was set aside and what was called an error is settled.
   In the end every step is accounted for exactly once.                                                            *)
EXTENDS Compare, Json, TLC
CONSTANTS MaxPts, W, H, Share
VARIABLES pa, pb, i, j, same, ra, rb, miss, add, phase
vars == <<pa, pb, i, j, same, ra, rb, miss, add, phase>>
Grid == (0..W) \X (0..H)
Step(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2]) = 1
RECURSIVE Lines(_)
Lines(n) == IF n = 1 THEN {<<p>> : p \in Grid} ELSE UNION {{Append(l, p) : p \in {q \in Grid : Step(l[n - 1], q)}} : l \in Lines(n - 1)}
AllLines == UNION {Lines(n) : n \in 1..MaxPts}
Back(s, k) == k >= 2 /\ s[k - 1][2] = s[k][1] /\ s[k - 1][1] = s[k][2]
\* the last time the place where the way back starts is left again
Until(s, k) == LET c == {m \in (k + 1)..Len(s) : s[m][1] = s[k][1]} IN
               IF Back(s, k) /\ c # {} THEN CHOOSE m \in c : \A n \in c : n <= m ELSE 0
\* the earliest place of the match that is one of the ground truth, and the earliest there
Common(a, b, k, n) ==
  LET n0 == IF a[k][1] = b[n][1] THEN n + 1 ELSE n
      js == {m \in n0..Len(b) : \E x \in k..Len(a) : a[x][1] = b[m][1]} IN
  IF js = {} THEN <<Len(a) + 1, Len(b) + 1>>
  ELSE LET m == CHOOSE m \in js : \A q \in js : m <= q
           is == {x \in k..Len(a) : a[x][1] = b[m][1]} IN <<CHOOSE x \in is : \A q \in is : x <= q, m>>
RECURSIVE Rid(_, _)       \* s without one of each in t, as far as there
Rid(s, t) == IF t = <<>> THEN s ELSE
  LET ks == {k \in 1..Len(s) : s[k] = t[1]} IN
  IF ks = {} THEN Rid(s, Tail(t))
  ELSE LET k == CHOOSE k \in ks : \A q \in ks : k <= q IN Rid(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)), Tail(t))
RECURSIVE Shared(_, _)
Shared(s, t) == IF s = <<>> THEN <<>> ELSE
  IF \E k \in 1..Len(t) : t[k] = s[1] THEN <<s[1]>> \o Shared(Tail(s), Rid(t, <<s[1]>>)) ELSE Shared(Tail(s), t)
A == StepsOf(pa)
B == StepsOf(pb)
Init == /\ pa \in AllLines /\ pb \in AllLines /\ RandomElement(1..1000) <= Share
        /\ i = 1 /\ j = 1 /\ same = <<>> /\ ra = <<>> /\ rb = <<>> /\ miss = <<>> /\ add = <<>> /\ phase = "walk"
Both == phase = "walk" /\ i <= Len(A) /\ j <= Len(B)
Same == /\ Both /\ A[i] = B[j] /\ same' = Append(same, A[i]) /\ i' = i + 1 /\ j' = j + 1
        /\ UNCHANGED <<pa, pb, ra, rb, miss, add, phase>>
AndBack == /\ Both /\ A[i] # B[j] /\ (Until(A, i) # 0 \/ Until(B, j) # 0)
          /\ LET u == IF Until(A, i) = 0 THEN i ELSE Until(A, i)  v == IF Until(B, j) = 0 THEN j ELSE Until(B, j) IN
             ra' = ra \o SubSeq(A, i, u - 1) /\ rb' = rb \o SubSeq(B, j, v - 1) /\ i' = u /\ j' = v
          /\ UNCHANGED <<pa, pb, same, miss, add, phase>>
Meet == /\ Both /\ A[i] # B[j] /\ Until(A, i) = 0 /\ Until(B, j) = 0
        /\ LET c == Common(A, B, i, j) IN
           miss' = miss \o SubSeq(A, i, c[1] - 1) /\ add' = add \o SubSeq(B, j, c[2] - 1) /\ i' = c[1] /\ j' = c[2]
        /\ UNCHANGED <<pa, pb, same, ra, rb, phase>>
\* set aside in both; called added although going back and forth in the ground truth; the same for missed; called both
Settle == /\ phase = "walk" /\ ~Both
          /\ LET m0 == miss \o SubSeq(A, i, Len(A))  d0 == add \o SubSeq(B, j, Len(B))
                 s1 == Shared(rb, ra)  x1 == Rid(ra, s1)  y1 == Rid(rb, s1)
                 s2 == Shared(d0, x1)  x2 == Rid(x1, s2)  d2 == Rid(d0, s2)
                 s3 == Shared(m0, y1)  y3 == Rid(y1, s3)  m3 == Rid(m0, s3)
                 m4 == m3 \o x2  d4 == d2 \o y3  s4 == Shared(m4, d4) IN
             /\ same' = same \o s1 \o s2 \o s3 \o s4 /\ miss' = Rid(m4, s4) /\ add' = Rid(d4, s4)
          /\ phase' = "done" /\ ra' = <<>> /\ rb' = <<>> /\ i' = Len(A) + 1 /\ j' = Len(B) + 1 /\ UNCHANGED <<pa, pb>>
Next == Same \/ AndBack \/ Meet \/ Settle
Spec == Init /\ [][Next]_vars
Perm(s, t) == Len(s) = Len(t) /\ \A x \in SetOf(s) : Times(s, x) = Times(t, x)
\* nothing is lost on the way
Kept == /\ Perm(A, same \o ra \o miss \o SubSeq(A, i, Len(A)))
        /\ Perm(B, same \o rb \o add \o SubSeq(B, j, Len(B)))
Right == phase = "done" => Accounted(A, B, same, miss, add)
\* the walk ends
Ends == Both => (A[i] = B[j] \/ Until(A, i) # 0 \/ Until(B, j) # 0 \/ Common(A, B, i, j) # <<i, j>>)
Emit == phase' = "done" => PrintT("@@" \o ToJson(<<pa, pb>>))
=============================================================================
