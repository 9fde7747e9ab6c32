------------------------------ MODULE PolyTrace ------------------------------
(* The polygon builder as a state machine over the list of pending vertices, and the    *)
(* judge of outlines recorded from the real code: a query must consume the recorded     *)
(* vertices from left to right, entry by entry. Lengths are rounded to whole units.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils, CSV, Trig
Trace == ndJsonDeserialize(IOEnv.TRACE)
RejectFile == IOEnv.REJECT
A(x) == IF x < 0 THEN -x ELSE x
Mx(x, y) == IF x > y THEN x ELSE y
Mn(x, y) == IF x < y THEN x ELSE y
RD(a, b) == IF a < 0 THEN -((-a + b \div 2) \div b) ELSE (a + b \div 2) \div b
Add(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Isqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, IF n < 46340 THEN n ELSE 46340)
Norm(v) == IF A(v[1]) > 30000 \/ A(v[2]) > 30000 THEN 8 * Isqrt((v[1] \div 8) * (v[1] \div 8) + (v[2] \div 8) * (v[2] \div 8))
           ELSE Isqrt(v[1] * v[1] + v[2] * v[2])
Dist(u, v) == Norm(Sub(u, v))
\* direction in ten-thousandths
Unit(w) == LET z == Mx(1, 16000 \div Mx(1, Mx(A(w[1]), A(w[2]))))  v == <<z * w[1], z * w[2]>>  n == Mx(1, Norm(v)) IN <<RD(v[1] * 10000, n), RD(v[2] * 10000, n)>>
Far(u, k) == <<RD(u[1] * k, 10000), RD(u[2] * k, 10000)>>
Near(u, v, t) == A(u[1] - v[1]) <= t /\ A(u[2] - v[2]) <= t
Rot(r, t) == <<RD(r * Cos(t), TrigScale), RD(r * Sin(t), TrigScale)>>

\* --- arcs: ps are the recorded points from a to b, both included
IsArc(ps, rad) ==
  LET a == ps[1]  b == ps[Len(ps)]  L == Dist(a, b)  R == A(rad)  s == IF rad < 0 THEN -1 ELSE 1
      u == Unit(Sub(b, a))
      h == Isqrt(Mx(0, R * R - (L * L) \div 4))
      c == Add(<<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>, Far(<<s * u[2], -s * u[1]>>, h))
      tol == 7 + Mn(Isqrt(8 * R), (4 * R) \div (h + 1))
      d == Dist(ps[1], ps[2])
  IN \A j \in 2..Len(ps) :
       /\ A(Dist(ps[j], ps[j - 1]) - d) <= 5 + (tol - 7) \div 2
       /\ j < Len(ps) => /\ A(Dist(ps[j], c) - R) <= tol
                         /\ s * (u[1] * (ps[j][2] - a[2]) - u[2] * (ps[j][1] - a[1])) >= -40000
\* --- corners: the edges from v to p and n, and the tangent circle of radius r (f facets)
Corner(p, v, n, r, f) ==
  LET la == Dist(p, v)  lb == Dist(n, v) IN
  IF la < 24 \/ lb < 24 THEN [flat |-> TRUE, may |-> TRUE, must |-> FALSE]
  ELSE LET u == Unit(Sub(p, v))  w == Unit(Sub(n, v))
           co == RD(u[1] * w[1] + u[2] * w[2], 10000)
           si == A(RD(u[1] * w[2] - u[2] * w[1], 10000))
           \* distance of n from the line through p and v
           x == Sub(p, v)  y == Sub(n, v)
           h == A(x[1] * y[2] - x[2] * y[1]) \div la
           sharp == co > 9900
           d1 == IF sharp THEN (IF h <= 6 THEN 100000 ELSE Mn(100000, (2 * r * lb) \div h))
                 ELSE IF co < 0 THEN RD(r * si, 10000 - co)
                 ELSE RD(r * (10000 + co), si)
           m == IF sharp THEN (IF h <= 6 THEN 0 ELSE 5 + Mn(100000, (2 * r * lb) \div (h - 6)) - d1)
                ELSE 5 + ((r * (30000 \div la + 30000 \div lb + 3)) \div (10000 - co))
           \* the radius of a chamfer was rounded
           cr == IF f = 1 THEN 1 + d1 \div (2 * r) ELSE 0
       IN [flat |-> FALSE, u |-> u, w |-> w, d1 |-> d1, m |-> m + cr,
           \* straight on, or straight back: nothing to round
           may |-> d1 <= Mn(la, lb) + m + cr,
           must |-> d1 + m + cr <= Mn(la, lb) /\ si > 40 + 20000 \div la + 20000 \div lb]
IsSmooth(c, ps, v, r) ==
  \/ c.flat
  \/ LET f == Len(ps) - 1
         side == IF c.u[1] * c.w[2] - c.u[2] * c.w[1] > 0 THEN 1 ELSE -1
         cc == Add(ps[1], Far(<<-side * c.u[2], side * c.u[1]>>, r))
         d == Dist(ps[1], ps[2])
     IN /\ Near(ps[1], Add(v, Far(c.u, c.d1)), c.m)
        /\ Near(ps[f + 1], Add(v, Far(c.w, c.d1)), c.m)
        /\ \A j \in 1..f + 1 : /\ Dist(ps[j], v) <= c.d1 + c.m
                               /\ c.d1 > 12 => A(Dist(ps[j], cc) - r) <= c.m
        /\ \A j \in 1..f : A(Dist(ps[j], ps[j + 1]) - d) <= 4

\* --- a query: entries es of a builder give the outline vs. Result: [ok, es'] with the
\* entries as they are afterwards
Fail == [ok |-> FALSE, es |-> <<>>]
Plain(p) == [p |-> p, m |-> "none", r |-> 0, f |-> 0]
Slice(vs, i, n) == [j \in 1..n |-> vs[i + j - 1]]
RECURSIVE Walk(_, _, _, _, _, _)
Walk(es, vs, closed, i, pos, acc) ==
  LET n == Len(es)  left == Len(vs) - pos + 1 IN
  IF i > n THEN (IF left = 0 THEN [ok |-> TRUE, es |-> acc] ELSE Fail)
  ELSE IF left < 1 THEN Fail
  ELSE
  LET e == es[i]
      Stay(k) == Walk(es, vs, closed, i + 1, pos + 1, Append(acc, [e EXCEPT !.m = k]))
      plain == IF Near(vs[pos], e.p, 3) THEN Stay("none") ELSE Fail
      Took(k, ps) == Walk(es, vs, closed, i + 1, pos + k, acc \o [j \in 1..k |-> Plain(ps[j])])
  IN CASE e.m = "none" -> plain
       [] e.m = "arc" ->
          IF (i = 1 /\ ~closed) \/ e.f = 1 THEN plain
          ELSE LET a == es[IF i = 1 THEN n ELSE i - 1].p  L == Dist(a, e.p)  R == A(e.r)
                   fits == left >= e.f /\ Near(vs[pos + e.f - 1], e.p, 3)
                   arc == IF fits /\ (L <= 12 \/ IsArc(<<a>> \o Slice(vs, pos, e.f), e.r))
                          THEN Took(e.f, Slice(vs, pos, e.f)) ELSE Fail
               IN IF L <= 12 THEN (IF arc.ok THEN arc ELSE plain)
                  ELSE IF 2 * R >= L + 7 THEN arc
                  ELSE IF 2 * R <= L - 7 THEN plain
                  ELSE IF arc.ok THEN arc ELSE plain
       [] e.m = "smooth" ->
          LET same == IF Near(vs[pos], e.p, 3) THEN Stay("smooth") ELSE Fail IN
          IF ~closed /\ (i = 1 \/ i = n) THEN same
          ELSE LET prev == IF i > 1 THEN acc[Len(acc)].p ELSE IF n = 1 THEN e.p ELSE es[n].p
                   Nxt(k) == IF i = n THEN vs[1]
                             ELSE IF es[i + 1].m = "arc" /\ k + 1 <= left THEN vs[pos + k] ELSE es[i + 1].p
                   ps == Slice(vs, pos, e.f + 1)
                   cs == Corner(prev, e.p, Nxt(1), e.r, e.f)
                   ca == Corner(prev, e.p, Nxt(e.f + 1), e.r, e.f)
                   done == IF left >= e.f + 1 /\ ca.may /\ IsSmooth(ca, ps, e.p, e.r) THEN Took(e.f + 1, ps) ELSE Fail
               IN IF done.ok THEN done ELSE IF cs.must THEN Fail ELSE same
\* "must" looks at the outline as it would be if the corner were left alone, so a corner
\* before an arc is judged by the arc's first facet

VARIABLES s, k, es, closed, rev
vars == <<s, k, es, closed, rev>>
Fresh == es' = <<>> /\ closed' = FALSE /\ rev' = FALSE
Init == s = 1 /\ k = 0 /\ es = <<>> /\ closed = FALSE /\ rev = FALSE /\ TLCSet(1, 1)
Reject(msg) == /\ CSVWrite("%1$s", <<ToJson([case |-> Trace[s].case, event |-> k, what |-> msg, unit |-> Trace[s].unit,
                                             log |-> Trace[s].log])>>, RejectFile)
               /\ s' = s + 1 /\ k' = 0 /\ Fresh
\* a point may be off by two units because angles are rounded
NagonGood(t) == IF t.n < 3 THEN t.nagon = <<>>
                ELSE Len(t.nagon) = t.n /\ \A i \in 1..t.n : Near(t.nagon[i], Rot(t.r, (36000 * (i - 1)) \div t.n), 3 + t.r \div 5000)
Mod(e) == IF e.m = "none" \/ e.r = 0 \/ (e.m # "chamfer" /\ e.f = 0) THEN [m |-> "none", r |-> 0, f |-> 0]
          ELSE IF e.m = "chamfer" THEN [m |-> "smooth", r |-> RD(e.r * 7071, 10000), f |-> 1]
          ELSE [m |-> e.m, r |-> e.r, f |-> e.f]
Put(p, e) == LET m == Mod(e) IN es' = Append(es, [p |-> p, m |-> m.m, r |-> m.r, f |-> m.f])
Last1 == es[Len(es)].p
Step == LET t == Trace[s]  e == t.log[k] IN
  CASE e.k = "add" -> Put(<<e.x, e.y>>, e) /\ UNCHANGED <<closed, rev>> /\ k' = k + 1 /\ s' = s
    [] e.k = "rel" -> Put(Add(Last1, <<e.x, e.y>>), e) /\ UNCHANGED <<closed, rev>> /\ k' = k + 1 /\ s' = s
    [] e.k = "polar" -> Put(Rot(e.x, e.y), e) /\ UNCHANGED <<closed, rev>> /\ k' = k + 1 /\ s' = s
    [] e.k = "relpolar" -> Put(Add(Last1, Rot(e.x, e.y)), e) /\ UNCHANGED <<closed, rev>> /\ k' = k + 1 /\ s' = s
    [] e.k = "drop" -> es' = SubSeq(es, 1, Len(es) - 1) /\ UNCHANGED <<closed, rev>> /\ k' = k + 1 /\ s' = s
    [] e.k = "close" -> closed' = TRUE /\ UNCHANGED <<es, rev>> /\ k' = k + 1 /\ s' = s
    [] e.k = "reverse" -> rev' = TRUE /\ UNCHANGED <<es, closed>> /\ k' = k + 1 /\ s' = s
    [] OTHER ->
       IF ~e.ok THEN Reject("the outline has coordinates which are not finite numbers")
       ELSE LET vs == IF rev THEN Reverse(e.v) ELSE e.v
                w == Walk(es, vs, closed, 1, 1, <<>>)
            IN IF e.closed # closed THEN Reject("Closed() is wrong")
               ELSE IF w.ok THEN es' = [i \in 1..Len(vs) |-> [w.es[i] EXCEPT !.p = vs[i]]] /\ UNCHANGED <<closed, rev>> /\ k' = k + 1 /\ s' = s
               ELSE Reject("the outline is not the one the calls describe")
Next == /\ s <= Len(Trace)
        /\ IF k = 0 THEN (IF Trace[s].nok /\ NagonGood(Trace[s]) THEN k' = 1 /\ s' = s /\ Fresh ELSE Reject("Nagon is not the regular polygon"))
           ELSE IF k > Len(Trace[s].log) THEN s' = s + 1 /\ k' = 0 /\ Fresh
           ELSE Step
        /\ TLCSet(1, s')
Spec == Init /\ [][Next]_vars
Consumed == TLCGet(1) = Len(Trace) + 1
=============================================================================
