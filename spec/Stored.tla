------------------------------ MODULE Stored ------------------------------
(* Networks written to disk and read back, and what may be asked of them (C17). A network has nodes [id, p, tags] and edges
   [id, s, t, ls, tags]; s, t are numbers of nodes from 0. A query has a kind q and arguments a. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) : Times(s, x) = Times(t, x)
\* ---- the network held is the network given
Same(ns, es, net) ==
  /\ Len(net.ns) = Len(ns) /\ \A i \in 1..Len(ns) : LET n == net.ns[i] IN
       n.ix = i - 1 /\ n.id = ns[i].id /\ n.p = ns[i].p /\ n.tags = ns[i].tags /\ n.o = Cardinality({j \in 1..Len(es) : es[j].s = i - 1})
  /\ SameBag(es, [i \in 1..Len(net.es) |-> LET e == net.es[i] IN [id |-> e.id, s |-> e.s, t |-> e.t, ls |-> e.ls, tags |-> e.tags]])
  /\ {net.es[i].ix : i \in 1..Len(net.es)} = 0..(Len(net.es) - 1)
  /\ \A i \in 1..Len(net.es) : net.es[i].has = (\E j \in 1..(Len(net.es[i].ls) - 1) : net.es[i].ls[j] # net.es[i].ls[j + 1])
\* ---- geometry on whole numbers
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Sq(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
InBox(p, b) == b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Corners(b) == {<<b[1], b[2]>>, <<b[1], b[4]>>, <<b[3], b[2]>>, <<b[3], b[4]>>}
Beside(s, b) ==
  \/ Hi(s[1][1], s[2][1]) < b[1] \/ Lo(s[1][1], s[2][1]) > b[3] \/ Hi(s[1][2], s[2][2]) < b[2] \/ Lo(s[1][2], s[2][2]) > b[4]
  \/ \A c \in Corners(b) : Cross(s[1], s[2], c) > 0
  \/ \A c \in Corners(b) : Cross(s[1], s[2], c) < 0
SegInBox(s, b) == ~Beside(s, b)
On(p, s) == Cross(s[1], s[2], p) = 0 /\ Lo(s[1][1], s[2][1]) <= p[1] /\ p[1] <= Hi(s[1][1], s[2][1])
            /\ Lo(s[1][2], s[2][2]) <= p[2] /\ p[2] <= Hi(s[1][2], s[2][2])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Meet(s, u) == \/ On(s[1], u) \/ On(s[2], u) \/ On(u[1], s) \/ On(u[2], s)
              \/ Sgn(Cross(s[1], s[2], u[1])) * Sgn(Cross(s[1], s[2], u[2])) < 0 /\ Sgn(Cross(u[1], u[2], s[1])) * Sgn(Cross(u[1], u[2], s[2])) < 0
\* squared distance of p and a segment as a fraction
Away(p, s) ==
  LET a == s[1]  b == s[2]  l == Sq(a, b)
      d == (b[1] - a[1]) * (p[1] - a[1]) + (b[2] - a[2]) * (p[2] - a[2]) IN
  IF l = 0 \/ d <= 0 THEN <<Sq(p, a), 1>> ELSE IF d >= l THEN <<Sq(p, b), 1>> ELSE <<Cross(a, b, p) * Cross(a, b, p), l>>
Nearer(x, y) == x[1] * y[2] < y[1] * x[2]
\* ---- what a network says to a query, by looking at everything it holds
Points(net) == {<<n.ix, n.p>> : n \in RangeOf(net.ns)}
Segments(net) == UNION {{<<e.ix, i - 1, e.ls[i], e.ls[i + 1]>> : i \in 1..(Len(e.ls) - 1)} : e \in RangeOf(net.es)}
Seg(x) == <<x[3], x[4]>>
Each(got, all) == RangeOf(got) = all /\ Len(got) = Cardinality(all)
Box(a) == a
P(a, i) == <<a[i], a[i + 1]>>
InSegs(net, b) == {x \in Segments(net) : SegInBox(Seg(x), b)}
FewestPoints(net, p, k, got) ==
  /\ Len(got) = Lo(k, Cardinality(Points(net))) /\ Cardinality(RangeOf(got)) = Len(got) /\ RangeOf(got) \subseteq Points(net)
  /\ \A x \in RangeOf(got), y \in Points(net) \ RangeOf(got) : Sq(p, x[2]) <= Sq(p, y[2])
FewestSegs(net, p, k, got) ==
  /\ Len(got) = Lo(k, Cardinality(Segments(net))) /\ Cardinality(RangeOf(got)) = Len(got) /\ RangeOf(got) \subseteq Segments(net)
  /\ \A x \in RangeOf(got), y \in Segments(net) \ RangeOf(got) : ~Nearer(Away(p, Seg(y)), Away(p, Seg(x)))
Answer(net, q, a, got) ==
  CASE q = "pbox" -> Each(got, {x \in Points(net) : InBox(x[2], a)})
    [] q = "pnear" -> FewestPoints(net, P(a, 1), a[3], got)
    [] q = "sbox" -> Each(got, InSegs(net, a))
    [] q = "snear" -> FewestSegs(net, P(a, 1), a[3], got)
    [] q = "ubox" -> Each(got, {x[1] : x \in InSegs(net, a)})
    [] q = "qbox" -> /\ Len(got) = 2 * Cardinality(InSegs(net, a))
                     /\ \A p \in RangeOf(got) \cup UNION {{x[3], x[4]} : x \in InSegs(net, a)} :
                          Times(got, p) = Cardinality({x \in InSegs(net, a) : x[3] = p}) + Cardinality({x \in InSegs(net, a) : x[4] = p})
    [] q = "node" -> Each(got, {n.ix : n \in {m \in RangeOf(net.ns) : m.id = a[1]}})
    [] q = "edge" -> Each(got, {e.ix : e \in {f \in RangeOf(net.es) : f.id = a[1]}})
    [] q = "pin" -> LET w == {x[1] : x \in {y \in Points(net) : y[2] = P(a, 1)}} IN IF w = {} THEN got = <<-1>> ELSE got[1] \in w
    [] q = "ein" -> LET w == {<<x[1], x[2]>> : x \in {y \in Segments(net) : P(a, 1) \in {y[3], y[4]}}} IN IF w = {} THEN got = <<-1, -1>> ELSE got \in w
    [] q = "fit" -> LET u == <<P(a, 1), P(a, 3)>>
                        w == {x \in Segments(net) : Meet(Seg(x), u)}
                        v == {x \in w : Seg(x) = u} IN
                    IF w = {} THEN got = <<-1>> ELSE IF v = {} THEN got[1] \in {x[1] : x \in w} ELSE got[1] \in {x[1] : x \in v}
    [] q = "bounds" -> IF net.ns = <<>> THEN got = <<>>
                       ELSE LET xs == {n.p[1] : n \in RangeOf(net.ns)}  ys == {n.p[2] : n \in RangeOf(net.ns)}
                                Min(s) == CHOOSE x \in s : \A y \in s : x <= y  Max(s) == CHOOSE x \in s : \A y \in s : y <= x IN
                            got = <<<<Min(xs), Min(ys)>>, <<Max(xs), Max(ys)>>>>
    [] OTHER -> FALSE
\* on a globe, only boxes of points, identifiers and bounds are judged by looking at everything
OnGlobe == {"pbox", "node", "edge", "bounds", "pin", "ein"}
Sensible(geo, net, q, a, got) == IF geo /\ q \notin OnGlobe THEN TRUE ELSE Answer(net, q, a, got)
\* both answers to the same query, where more than one is right
Agree(q, x, y) == IF q \in {"pbox", "sbox", "ubox", "qbox", "node", "edge"} THEN SameBag(x, y) ELSE q = "bounds" => x = y
Kept == {"graph.bin", "tags.bin", "index.bin"}
Stored1(e) ==
  /\ e.failed = ""
  /\ Same(e.r.ns, e.r.es, e.r.before)
  /\ e.r.after = e.r.before
  /\ RangeOf(e.r.files) = Kept
  /\ Len(e.r.pre) = Len(e.qs) /\ Len(e.r.post) = Len(e.qs)
  /\ \A i \in 1..Len(e.qs) : LET q == e.qs[i].q  a == e.qs[i].a IN
       /\ Sensible(e.geo, e.r.before, q, a, e.r.pre[i]) /\ Sensible(e.geo, e.r.before, q, a, e.r.post[i])
       /\ Agree(q, e.r.pre[i], e.r.post[i])
==============================================================================
