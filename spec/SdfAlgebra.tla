------------------------------ MODULE SdfAlgebra ------------------------------
(* What every shape of the library evaluates to, as a recursive definition over the *)
(* tree of constructions. All lengths are integers (units), a query point is a tuple *)
(* of integers together with an error radius e, and E2 / E3 give an interval          *)
(* <<lo, hi>> of units which holds the value of the shape at every point within e of  *)
(* the query. Rounding only ever widens intervals, so a value outside is a violation. *)
(* A node is [op, c, a, s, p]: operation, children, integer arguments, string         *)
(* argument, list of tuples. Angles are in hundredths of a degree.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Trig
BIG == 100000000          \* stands for "further than anything"
FAR == 30000              \* values at or beyond this are not distinguished
GUARD == 12000            \* coordinates beyond this are not followed any more
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RDiv(a, b) == IF b < 0 THEN (2 * (-a) - b) \div (2 * (-b)) ELSE (2 * a + b) \div (2 * b)   \* rounded quotient
CDiv(a, b) == -((-a) \div b)                                                               \* ceiling, b > 0
Newton(n, x) == (x + n \div x) \div 2
ISqrt(n) == IF n <= 0 THEN 0 ELSE
   LET x0 == IF n < 64 THEN 6 ELSE IF n < 1024 THEN 20 ELSE IF n < 16384 THEN 80 ELSE IF n < 262144 THEN 300
             ELSE IF n < 4194304 THEN 1200 ELSE IF n < 67108864 THEN 5000 ELSE IF n < 400000000 THEN 14000 ELSE 32000
       x1 == Newton(n, x0)  x2 == Newton(n, x1)  x3 == Newton(n, x2)  x4 == Newton(n, x3) IN
   Newton(n, x4)                                                                           \* within 1 of the root
Hyp2(x, y) == IF x = 0 THEN Abs(y) ELSE IF y = 0 THEN Abs(x) ELSE ISqrt(x * x + y * y)
Hyp3(x, y, z) == ISqrt(x * x + y * y + z * z)

\* intervals
Clamp(v) == IF v > BIG THEN BIG ELSE IF v < -BIG THEN -BIG ELSE v
Iv(lo, hi) == <<Clamp(lo), Clamp(hi)>>
Leaf(d, e) == <<d - 1 - e, d + 1 + e>>
All == <<-BIG, BIG>>
NonNeg == <<0, BIG>>
Nothing == <<BIG, BIG>>
IMin(u, v) == <<Min2(u[1], v[1]), Min2(u[2], v[2])>>
IMax(u, v) == <<Max2(u[1], v[1]), Max2(u[2], v[2])>>
INeg(u) == <<-u[2], -u[1]>>
IHull(u, v) == <<Min2(u[1], v[1]), Max2(u[2], v[2])>>
\* adding a constant leaves "further than anything" alone
Plus1(x, k) == IF x >= FAR \/ x <= -FAR THEN x ELSE x + k
IPlus(u, k) == <<Plus1(u[1], k), Plus1(u[2], k)>>
IWiden(u, k) == <<Plus1(u[1], -k), Plus1(u[2], k)>>
MulQ1(x, n, d) == IF x >= FAR THEN BIG ELSE IF x <= -FAR THEN -BIG ELSE RDiv(x * n, d)
IMulQ(u, n, d) == Iv(MulQ1(u[1], n, d) - 1, MulQ1(u[2], n, d) + 1)
IAbs(u) == IF u[1] >= 0 THEN u ELSE IF u[2] <= 0 THEN INeg(u) ELSE <<0, Max2(-u[1], u[2])>>
\* only the side of the surface is known
ISign(u) == IF u[2] < 0 THEN <<-BIG, 0>> ELSE IF u[1] > 0 THEN <<0, BIG>> ELSE All
IMinSeq(F(_), q) == FoldLeft(LAMBDA acc, x : IMin(acc, F(x)), Nothing, q)
Far2(p) == Abs(p[1]) > GUARD \/ Abs(p[2]) > GUARD
Far3(p) == Abs(p[1]) > GUARD \/ Abs(p[2]) > GUARD \/ Abs(p[3]) > GUARD

\* points
Sub2(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Sub3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
\* rotation by a hundredths of a degree, right handed; off by at most 2 when |p| <= 17000
Quarter(a) == a % 9000 = 0
Rot2(p, a) == LET b == a % 36000 IN
   IF b = 0 THEN p ELSE IF b = 9000 THEN <<-p[2], p[1]>> ELSE IF b = 18000 THEN <<-p[1], -p[2]>>
   ELSE IF b = 27000 THEN <<p[2], -p[1]>>
   ELSE LET c == Cos(b)  s == Sin(b) IN
        <<RDiv(p[1] * c - p[2] * s, TrigScale), RDiv(p[1] * s + p[2] * c, TrigScale)>>
RotErr(a) == IF Quarter(a) THEN 0 ELSE 2
Dot3(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
Cross3(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
\* rotation about the axis k (integer vector of integer length), off by at most 5
RotAx(p, k, a) ==
   LET n == ISqrt(Dot3(k, k))  c == Cos(a)  s == Sin(a)  kp == Dot3(k, p)  x == Cross3(k, p) IN
   [i \in 1..3 |-> RDiv(p[i] * c, TrigScale) + RDiv(RDiv(x[i], n) * s, TrigScale)
                   + RDiv(RDiv(RDiv(kp, n) * k[i], n) * (TrigScale - c), TrigScale)]

\* elementary moves; Inv undoes one on a point, Fwd does it, MErr bounds the rounding
Inv3(m, p) ==
   CASE m[1] = 1 -> <<p[1] - m[2], p[2] - m[3], p[3] - m[4]>>
     [] m[1] = 2 -> LET r == Rot2(<<p[2], p[3]>>, -m[2]) IN <<p[1], r[1], r[2]>>
     [] m[1] = 3 -> LET r == Rot2(<<p[3], p[1]>>, -m[2]) IN <<r[2], p[2], r[1]>>
     [] m[1] = 4 -> LET r == Rot2(<<p[1], p[2]>>, -m[2]) IN <<r[1], r[2], p[3]>>
     [] m[1] = 5 -> RotAx(p, <<m[3], m[4], m[5]>>, -m[2])
     [] m[1] = 6 -> <<p[1], p[2], -p[3]>>
     [] m[1] = 7 -> <<p[1], -p[2], p[3]>>
     [] m[1] = 8 -> <<-p[1], p[2], p[3]>>
     [] m[1] = 9 -> <<p[2], p[1], p[3]>>
     [] m[1] = 10 -> <<RDiv(p[1] * m[3], m[2]), RDiv(p[2] * m[5], m[4]), RDiv(p[3] * m[7], m[6])>>
Fwd3(m, p) ==
   CASE m[1] = 1 -> <<p[1] + m[2], p[2] + m[3], p[3] + m[4]>>
     [] m[1] \in 2..4 -> Inv3(<<m[1], -m[2]>>, p)
     [] m[1] = 5 -> RotAx(p, <<m[3], m[4], m[5]>>, m[2])
     [] m[1] \in 6..9 -> Inv3(m, p)
     [] m[1] = 10 -> <<RDiv(p[1] * m[2], m[3]), RDiv(p[2] * m[4], m[5]), RDiv(p[3] * m[6], m[7])>>
MErr3(m, e) == CASE m[1] \in {1, 6, 7, 8, 9} -> e
                 [] m[1] \in 2..4 -> e + RotErr(m[2])
                 [] m[1] = 5 -> e + 5
                 [] m[1] = 10 -> 1 + e * Max2(CDiv(m[3], m[2]), Max2(CDiv(m[5], m[4]), CDiv(m[7], m[6])))
\* undo a product of moves m1.m2.m3 (which does m3 first): undo m1 first
RECURSIVE Undo3(_, _, _, _)
Undo3(ms, i, p, e) == IF i > Len(ms) THEN <<p, e>>
                      ELSE IF Far3(p) THEN <<<<GUARD + 1, 0, 0>>, e>>
                      ELSE Undo3(ms, i + 1, Inv3(ms[i], p), MErr3(ms[i], e))
Do3(ms, p) == FoldRight(LAMBDA m, q : Fwd3(m, q), ms, p)
Inv2(m, p) ==
   CASE m[1] = 1 -> <<p[1] - m[2], p[2] - m[3]>>
     [] m[1] = 4 -> Rot2(p, -m[2])
     [] m[1] = 7 -> <<p[1], -p[2]>>       \* MirrorX
     [] m[1] = 8 -> <<-p[1], p[2]>>       \* MirrorY
     [] m[1] = 10 -> <<RDiv(p[1] * m[3], m[2]), RDiv(p[2] * m[5], m[4])>>
Fwd2(m, p) ==
   CASE m[1] = 1 -> <<p[1] + m[2], p[2] + m[3]>>
     [] m[1] = 4 -> Rot2(p, m[2])
     [] m[1] \in 7..8 -> Inv2(m, p)
     [] m[1] = 10 -> <<RDiv(p[1] * m[2], m[3]), RDiv(p[2] * m[4], m[5])>>
MErr2(m, e) == CASE m[1] \in {1, 7, 8} -> e
                 [] m[1] = 4 -> e + RotErr(m[2])
                 [] m[1] = 10 -> 1 + e * Max2(CDiv(m[3], m[2]), CDiv(m[5], m[4]))
RECURSIVE Undo2(_, _, _, _)
Undo2(ms, i, p, e) == IF i > Len(ms) THEN <<p, e>>
                      ELSE IF Far2(p) THEN <<<<GUARD + 1, 0>>, e>>
                      ELSE Undo2(ms, i + 1, Inv2(ms[i], p), MErr2(ms[i], e))
Do2(ms, p) == FoldRight(LAMBDA m, q : Fwd2(m, q), ms, p)
Scaling(ms) == \E i \in 1..Len(ms) : ms[i][1] = 10

\* exact distances of the primitives
BoxD2(x, y, hx, hy) ==
   LET dx == Abs(x) - hx  dy == Abs(y) - hy IN
   IF dx > 0 /\ dy > 0 THEN Hyp2(dx, dy) ELSE Max2(dx, dy)
BoxD3(p, hx, hy, hz) ==
   LET dx == Abs(p[1]) - hx  dy == Abs(p[2]) - hy  dz == Abs(p[3]) - hz IN
   IF dx <= 0 /\ dy <= 0 /\ dz <= 0 THEN Max2(dx, Max2(dy, dz))
   ELSE Hyp3(Max2(dx, 0), Max2(dy, 0), Max2(dz, 0))
\* distance from p to the segment a b
SegD(p, a, b) ==
   LET d == Sub2(b, a)  pa == Sub2(p, a)  pb == Sub2(p, b)
       l2 == d[1] * d[1] + d[2] * d[2]  t == pa[1] * d[1] + pa[2] * d[2] IN
   IF t <= 0 THEN Hyp2(pa[1], pa[2])
   ELSE IF t >= l2 THEN Hyp2(pb[1], pb[2])
   ELSE LET k == ISqrt(2000000000 \div l2) - 1  kk == IF k < 1 THEN 1 ELSE k
            l == ISqrt(l2 * kk * kk) IN
        RDiv(Abs(pa[1] * d[2] - pa[2] * d[1]) * kk, l)
\* inside by crossings of the upward ray's half-open rule
CrossesRay(p, a, b) ==
   /\ (a[2] > p[2]) # (b[2] > p[2])
   /\ LET s == (b[1] - a[1]) * (p[2] - a[2]) - (p[1] - a[1]) * (b[2] - a[2]) IN
      IF b[2] > a[2] THEN s > 0 ELSE s < 0
PolyEdges(v) == [i \in 1..Len(v) |-> <<v[i], v[(i % Len(v)) + 1]>>]
PolyD(v, p) ==
   LET es == PolyEdges(v)
       d == FoldLeft(LAMBDA acc, g : Min2(acc, SegD(p, g[1], g[2])), BIG, es)
       n == FoldLeft(LAMBDA acc, g : IF CrossesRay(p, g[1], g[2]) THEN acc + 1 ELSE acc, 0, es) IN
   IF n % 2 = 1 THEN -d ELSE d
NagonV(n, r) == [i \in 1..n |-> Rot2(<<r, 0>>, RDiv(36000 * (i - 1), n))]
\* inset of the profile of a rounded truncated cone: the flanks move in by rd
ConeIn(h, r0, r1, rd, up) ==
   LET k == 1000  l == ISqrt((r1 - r0) * (r1 - r0) + h * h) IN
   IF rd = 0 THEN (IF up THEN r1 ELSE r0)
   ELSE IF up THEN r1 - RDiv(rd * (l - r0 + r1), h) ELSE r0 - RDiv(rd * (l + r0 - r1), h)

\* a rounded rim: a is the distance in the plane, b the height over the flat part
Rim1(a, b) == IF b > 0 THEN (IF a < 0 THEN b ELSE IF a >= FAR \/ b >= FAR THEN BIG ELSE Hyp2(a, b))
              ELSE (IF a < 0 THEN Max2(a, b) ELSE a)
IRim(u, v) == Iv(Rim1(u[1], v[1]) - 1, Rim1(u[2], v[2]) + 1)

\* axes of the plane of a slice with normal n
SliceU(n) == IF n[1] = 0 THEN <<1, 0, 0>> ELSE IF n[2] = 0 THEN <<0, 1, 0>> ELSE IF n[3] = 0 THEN <<0, 0, 1>> ELSE <<n[2], -n[1], 0>>
SliceV(n) == Cross3(n, SliceU(n))
Along(v, x) == LET l == ISqrt(Dot3(v, v)) IN <<RDiv(v[1] * x, l), RDiv(v[2] * x, l), RDiv(v[3] * x, l)>>
\* positions of a pattern along a line, in thousandths to keep the division exact enough
LinePos(a, b, pat, i) == a + RDiv((b - a) * (i - 1), Len(pat))

\* the query of a scaled extrusion at height z, |z| <= h/2: from 1 at the bottom to d/n at the top
ScaleAt(x, z, h, n, d) == RDiv(x * (d * (h + 2 * z) + n * (h - 2 * z)), 2 * h * n)

\* A 2D union may pass over members which are further away than another member reaches.
\* That leaves the value alone when the members' values are distances (ex = 1), and the
\* inside in any case.
Pruned(ex, v) == IF ex = 1 \/ v[2] < 0 THEN v ELSE <<v[1], BIG>>
RECURSIVE E2(_, _, _), E3(_, _, _)
E2(s, p, e) ==
   IF Far2(p) THEN (IF s.op = "emp2" THEN Nothing ELSE IF s.op \in {"off2"} THEN IPlus(NonNeg, -Max2(s.a[1], 0)) ELSE NonNeg)
   ELSE CASE
      s.op = "circ" -> Leaf(Hyp2(p[1], p[2]) - s.a[1], e)
   [] s.op = "box2" -> Leaf(BoxD2(p[1], p[2], s.a[1] \div 2 - s.a[3], s.a[2] \div 2 - s.a[3]) - s.a[3], e)
   [] s.op = "lin" -> Leaf(BoxD2(p[1], p[2], s.a[1] \div 2, 0) - s.a[2], e)
   [] s.op = "poly" -> LET d == PolyD(s.p, p) IN IF Abs(d) <= e + 1 THEN <<-2 * e - 3, 2 * e + 3>> ELSE Leaf(d, e)
   [] s.op = "ngon" -> LET d == PolyD(NagonV(s.a[1], s.a[2]), p)  f == e + 2 IN
                       IF Abs(d) <= f + 1 THEN <<-2 * f - 3, 2 * f + 3>> ELSE Leaf(d, f)
   [] s.op = "emp2" -> Nothing
   [] s.op = "xf2" -> LET u == Undo2(s.p, 1, p, e) IN
                      IF Scaling(s.p) THEN ISign(E2(s.c[1], u[1], u[2])) ELSE E2(s.c[1], u[1], u[2])
   [] s.op = "scu2" -> IMulQ(E2(s.c[1], <<RDiv(p[1] * s.a[2], s.a[1]), RDiv(p[2] * s.a[2], s.a[1])>>, CDiv(e * s.a[2], s.a[1]) + 1), s.a[1], s.a[2])
   [] s.op = "un2" ->
        Pruned(s.a[1], IMinSeq(LAMBDA c : E2(c, p, e), s.c))
   [] s.op = "di2" -> IMax(E2(s.c[1], p, e), INeg(E2(s.c[2], p, e)))
   [] s.op = "in2" -> IMax(E2(s.c[1], p, e), E2(s.c[2], p, e))
   [] s.op = "cut2" -> LET v == <<s.a[3], s.a[4]>>  q == <<p[1] - s.a[1], p[2] - s.a[2]>>
                           l == Hyp2(v[1], v[2]) IN
                       IMax(Leaf(RDiv(v[1] * q[2] - v[2] * q[1], l), e), E2(s.c[1], p, e))
   [] s.op = "off2" -> IPlus(E2(s.c[1], p, e), -s.a[1])
   [] s.op = "elo2" -> LET q == [i \in 1..2 |-> LET h == s.a[i] \div 2 IN IF p[i] > h THEN p[i] - h ELSE IF p[i] < -h THEN p[i] + h ELSE 0] IN
                       E2(s.c[1], q, e)
   [] s.op = "arr2" -> IMinSeq(LAMBDA k : E2(s.c[1], <<p[1] - (k \div s.a[2]) * s.a[3], p[2] - (k % s.a[2]) * s.a[4]>>, e),
                               [k \in 1..(s.a[1] * s.a[2]) |-> k - 1])
   [] s.op = "rotu2" -> IMinSeq(LAMBDA k : LET u == Undo2(FlattenSeq([i \in 1..k |-> s.p]), 1, p, e) IN E2(s.c[1], u[1], u[2]),
                                [k \in 1..s.a[1] |-> k - 1])
   [] s.op = "rotc2" -> LET n == s.a[1]
                            qs == [k \in 1..n |-> Rot2(p, RDiv(-36000 * (k - 1), n))]
                            m == FoldLeft(LAMBDA acc, q : Max2(acc, q[1]), -BIG, qs)
                            ok == SelectSeq(qs, LAMBDA q : q[1] >= m - 2 * e - 4) IN
                        FoldLeft(LAMBDA acc, q : IHull(acc, E2(s.c[1], q, e + 3)), E2(s.c[1], ok[1], e + 3), Tail(ok))
   [] s.op = "lin2" -> LET ix == SelectSeq([i \in 1..Len(s.s) |-> i], LAMBDA i : SubSeq(s.s, i, i) = "x") IN
                       Pruned(s.a[5], IMinSeq(LAMBDA i : E2(s.c[1], <<p[1] - LinePos(s.a[1], s.a[3], s.s, i), p[2] - LinePos(s.a[2], s.a[4], s.s, i)>>, e + 1), ix))
   [] s.op = "mul2" -> Pruned(s.a[1], IMinSeq(LAMBDA t : E2(s.c[1], Sub2(p, t), e), s.p))
   [] s.op = "cen2" -> E2(s.c[1], <<p[1] + s.a[1], p[2] + s.a[2]>>, e)
   [] s.op = "ces2" -> IMulQ(E2(s.c[1], <<RDiv(p[1] * s.a[4], s.a[3]) + s.a[1], RDiv(p[2] * s.a[4], s.a[3]) + s.a[2]>>, CDiv(e * s.a[4], s.a[3]) + 1), s.a[3], s.a[4])
   [] s.op = "slc" -> LET n == <<s.a[4], s.a[5], s.a[6]>>  u == Along(SliceU(n), p[1])  v == Along(SliceV(n), p[2]) IN
                      E3(s.c[1], <<s.a[1] + u[1] + v[1], s.a[2] + u[2] + v[2], s.a[3] + u[3] + v[3]>>, e + 2)
   [] OTHER -> All

E3(s, p, e) ==
   IF Far3(p) THEN (IF s.op = "emp3" THEN Nothing ELSE IF s.op \in {"off3", "she3"} THEN IPlus(NonNeg, -Max2(s.a[1], 0)) ELSE NonNeg)
   ELSE CASE
      s.op = "sph" -> Leaf(Hyp3(p[1], p[2], p[3]) - s.a[1], e)
   [] s.op = "box3" -> LET r == s.a[4] IN Leaf(BoxD3(p, s.a[1] \div 2 - r, s.a[2] \div 2 - r, s.a[3] \div 2 - r) - r, e)
   [] s.op = "cyl" -> LET r == s.a[3] IN Leaf(BoxD2(Hyp2(p[1], p[2]), p[3], s.a[2] - r, s.a[1] \div 2 - r) - r, e + 1)
   [] s.op = "cap" -> LET r == s.a[2] IN Leaf(BoxD2(Hyp2(p[1], p[2]), p[3], 0, s.a[1] \div 2 - r) - r, e + 1)
   [] s.op = "cone" -> LET h == s.a[1]  r == s.a[4]  hh == h \div 2 - r
                           b == ConeIn(h, s.a[2], s.a[3], r, FALSE)  t == ConeIn(h, s.a[2], s.a[3], r, TRUE)
                           d == PolyD(<<<<-b, -hh>>, <<b, -hh>>, <<t, hh>>, <<-t, hh>>>>, <<Hyp2(p[1], p[2]), p[3]>>)
                           f == IF r = 0 THEN e + 1 ELSE e + 3 IN
                       IF Abs(d) <= f + 1 THEN <<-2 * f - 3 - r, 2 * f + 3 - r>> ELSE Leaf(d - r, f)
   [] s.op = "chc" -> \* cylinder whose rims are cut over that percentage of the radius (length of the cut face)
                      LET h == s.a[1]  r == s.a[2]  hh == h \div 2  kb == RDiv(r * s.a[3] * 707, 100000)  kt == RDiv(r * s.a[4] * 707, 100000)
                          d == PolyD(<<<<-(r - kb), -hh>>, <<r - kb, -hh>>, <<r, -hh + kb>>, <<r, hh - kt>>, <<r - kt, hh>>, <<-(r - kt), hh>>, <<-r, hh - kt>>, <<-r, kb - hh>>>>,
                                     <<Hyp2(p[1], p[2]), p[3]>>) IN
                      IF Abs(d) <= e + 3 THEN All ELSE ISign(Leaf(d, e + 1))
   [] s.op = "emp3" -> Nothing
   [] s.op = "xf3" -> LET u == Undo3(s.p, 1, p, e) IN
                      IF Scaling(s.p) THEN ISign(E3(s.c[1], u[1], u[2])) ELSE E3(s.c[1], u[1], u[2])
   [] s.op = "scu3" -> IMulQ(E3(s.c[1], [i \in 1..3 |-> RDiv(p[i] * s.a[2], s.a[1])], CDiv(e * s.a[2], s.a[1]) + 1), s.a[1], s.a[2])
   \* a part for a material is the shape drawn larger by what the material shrinks
   [] s.op = "mat" -> IF s.a[1] = 0 THEN E3(s.c[1], p, e)
                      ELSE IMulQ(E3(s.c[1], [i \in 1..3 |-> RDiv(p[i] * s.a[3], s.a[2])], CDiv(e * s.a[3], s.a[2]) + 1), s.a[2], s.a[3])
   [] s.op = "un3" -> IMinSeq(LAMBDA c : E3(c, p, e), s.c)
   [] s.op = "di3" -> IMax(E3(s.c[1], p, e), INeg(E3(s.c[2], p, e)))
   [] s.op = "in3" -> IMax(E3(s.c[1], p, e), E3(s.c[2], p, e))
   [] s.op = "cut3" -> LET n == <<s.a[4], s.a[5], s.a[6]>>  q == <<p[1] - s.a[1], p[2] - s.a[2], p[3] - s.a[3]>> IN
                       IMax(Leaf(RDiv(-Dot3(n, q), ISqrt(Dot3(n, n))), e), E3(s.c[1], p, e))
   [] s.op = "off3" -> IPlus(E3(s.c[1], p, e), -s.a[1])
   [] s.op = "she3" -> IF s.a[1] <= 0 THEN Nothing ELSE IPlus(IWiden(IAbs(E3(s.c[1], p, e)), 0), -(s.a[1] \div 2))
   [] s.op = "elo3" -> LET q == [i \in 1..3 |-> LET h == s.a[i] \div 2 IN IF p[i] > h THEN p[i] - h ELSE IF p[i] < -h THEN p[i] + h ELSE 0] IN
                       E3(s.c[1], q, e)
   [] s.op = "arr3" -> IMinSeq(LAMBDA k : E3(s.c[1], <<p[1] - (k \div (s.a[2] * s.a[3])) * s.a[4],
                                                       p[2] - ((k \div s.a[3]) % s.a[2]) * s.a[5],
                                                       p[3] - (k % s.a[3]) * s.a[6]>>, e),
                               [k \in 1..(s.a[1] * s.a[2] * s.a[3]) |-> k - 1])
   [] s.op = "rotu3" -> IMinSeq(LAMBDA k : LET u == Undo3(FlattenSeq([i \in 1..k |-> s.p]), 1, p, e) IN E3(s.c[1], u[1], u[2]),
                                [k \in 1..s.a[1] |-> k - 1])
   [] s.op = "rotc3" -> IF s.a[1] <= 0 THEN Nothing ELSE
                        LET n == s.a[1]
                            qs == [k \in 1..n |-> Rot2(<<p[1], p[2]>>, RDiv(-36000 * (k - 1), n))]
                            m == FoldLeft(LAMBDA acc, q : Max2(acc, q[1]), -BIG, qs)
                            ok == SelectSeq(qs, LAMBDA q : q[1] >= m - 2 * e - 4) IN
                        FoldLeft(LAMBDA acc, q : IHull(acc, E3(s.c[1], <<q[1], q[2], p[3]>>, e + 3)), E3(s.c[1], <<ok[1][1], ok[1][2], p[3]>>, e + 3), Tail(ok))
   [] s.op = "lin3" -> LET ix == SelectSeq([i \in 1..Len(s.s) |-> i], LAMBDA i : SubSeq(s.s, i, i) = "x") IN
                       IMinSeq(LAMBDA i : E3(s.c[1], <<p[1] - LinePos(s.a[1], s.a[4], s.s, i), p[2] - LinePos(s.a[2], s.a[5], s.s, i),
                                                       p[3] - LinePos(s.a[3], s.a[6], s.s, i)>>, e + 2), ix)
   [] s.op = "mul3" -> IMinSeq(LAMBDA t : E3(s.c[1], Sub3(p, t), e), s.p)
   [] s.op = "ori3" -> \* a shape of revolution about z, turned so that z points along each direction
        IMinSeq(LAMBDA t : LET l == ISqrt(Dot3(t, t))  ax == RDiv(Dot3(t, p), l)  x == Cross3(t, p)
                               rad == Hyp3(RDiv(x[1], l), RDiv(x[2], l), RDiv(x[3], l)) IN
                           E3(s.c[1], <<rad, 0, ax>>, e + 3), s.p)
   [] s.op = "ext" -> IMax(E2(s.c[1], <<p[1], p[2]>>, e), Leaf(Abs(p[3]) - s.a[1] \div 2, e))
   [] s.op = "twi" -> LET h == s.a[1]  w == s.a[2]  q == Rot2(<<p[1], p[2]>>, RDiv(w * p[3], h))
                          r == Hyp2(p[1], p[2])
                          f == e + 3 + CDiv(r * (1 + CDiv(e * Abs(w), h)), 5700) IN
                      IF Abs(p[3]) > h THEN <<Abs(p[3]) - h \div 2 - 1 - e, BIG>>
                      ELSE IMax(E2(s.c[1], q, f), Leaf(Abs(p[3]) - h \div 2, e))
   [] s.op \in {"sce", "sct"} ->
        LET h == s.a[1]  b == Leaf(Abs(p[3]) - h \div 2, e)
            o == IF s.op = "sce" THEN 1 ELSE 2
            xn == s.a[o + 1]  xd == s.a[o + 2]  yn == s.a[o + 3]  yd == s.a[o + 4]
            q0 == <<ScaleAt(p[1], p[3], h, xn, xd), ScaleAt(p[2], p[3], h, yn, yd)>>
            r == Hyp2(q0[1], q0[2])
            \* |dq| per unit of the query: the scale itself and its change with height
            g == Max2(1, Max2(CDiv(xd, xn), CDiv(yd, yn)))
            e0 == 1 + e * (g + 1 + CDiv(Hyp2(p[1], p[2]) * (g + 1), h))
            w == IF o = 1 THEN 0 ELSE s.a[2]
            q == IF Far2(q0) THEN q0 ELSE Rot2(q0, RDiv(w * p[3], h))
            f == IF w = 0 THEN e0 ELSE e0 + 3 + CDiv(r * (1 + CDiv(e * Abs(w), h)), 5700) IN
        IF b[2] >= 0 THEN <<b[1], BIG>>
        ELSE ISign(IMax(E2(s.c[1], q, f), b))
   [] s.op = "exr" -> IF s.a[2] = 0 THEN E3([s EXCEPT !.op = "ext"], p, e) ELSE
                      IF s.a[1] <= 0 \/ s.a[2] < 0 \/ s.a[1] < 2 * s.a[2] THEN Nothing ELSE
                      LET r == s.a[2] IN
                      IPlus(IRim(E2(s.c[1], <<p[1], p[2]>>, e), Leaf(Abs(p[3]) - s.a[1] \div 2 + r, e)), -r)
   [] s.op = "lof" -> IF s.a[1] <= 0 \/ s.a[2] < 0 \/ s.a[1] < 2 * s.a[2] THEN Nothing ELSE
                      LET r == s.a[2]  hh == s.a[1] \div 2 - r  z == IF p[3] > hh THEN hh ELSE IF p[3] < -hh THEN -hh ELSE p[3]
                          u == E2(s.c[1], <<p[1], p[2]>>, e)  v == E2(s.c[2], <<p[1], p[2]>>, e)
                          Mix(x, y) == IF x >= FAR \/ y >= FAR THEN BIG ELSE IF x <= -FAR \/ y <= -FAR THEN -BIG
                                       ELSE RDiv(x * (hh - z) + y * (hh + z), 2 * hh)
                          w == IF u[2] >= FAR \/ v[2] >= FAR \/ u[1] <= -FAR \/ v[1] <= -FAR THEN 0 ELSE
                               1 + CDiv(e * (Max2(Abs(u[1] - v[1]), Abs(u[2] - v[2]))), 2 * hh)
                          m == IWiden(<<Mix(u[1], v[1]), Mix(u[2], v[2])>>, w) IN
                      IF u[2] >= FAR \/ v[2] >= FAR \/ u[1] <= -FAR \/ v[1] <= -FAR
                      THEN (IF u[1] > 0 /\ v[1] > 0 THEN <<-r, BIG>> ELSE All)
                      ELSE IPlus(IRim(m, Leaf(Abs(p[3]) - hh, e)), -r)
   [] s.op = "rev" -> IF s.a[1] <= 0 THEN Nothing ELSE
                      LET t == s.a[1] % 36000  x == Hyp2(p[1], p[2])  a == E2(s.c[1], <<x, p[3]>>, e + 1)
                          d == IF t % 9000 = 0 THEN RDiv(-p[1] * Sin(t) + p[2] * Cos(t), TrigScale)
                               ELSE Rot2(<<p[1], p[2]>>, -t)[2]
                          D == Leaf(d, e + 2)  Y == Leaf(-p[2], e) IN
                      IF t = 0 THEN a
                      ELSE IMax(a, IF t < 18000 THEN IMax(Y, D) ELSE IMin(Y, D))
   [] OTHER -> All

---------------------------------------------------------------------------------
(* Where the smallest box around a shape is known: [l, h, e] with the corners within  *)
(* e of l and h, or none. The bounds of a moved shape are those of the moved bounds.   *)
NoBox == [l |-> <<>>, h |-> <<>>, e |-> 0]
BoxKnown(b) == b.l # <<>>
BoxE(l, h, e) == [l |-> l, h |-> h, e |-> e]
BoxCube(h) == BoxE([i \in 1..Len(h) |-> -h[i]], h, 0)
BoxAround(ps, e) == LET F(i) == {ps[k][i] : k \in 1..Len(ps)}  n == Len(ps[1])
                     Lo(S) == CHOOSE x \in S : \A y \in S : x <= y  Hi(S) == CHOOSE x \in S : \A y \in S : y <= x
                 IN BoxE([i \in 1..n |-> Lo(F(i))], [i \in 1..n |-> Hi(F(i))], e)
BoxCorners(b) == IF Len(b.l) = 2 THEN <<b.l, <<b.h[1], b.l[2]>>, b.h, <<b.l[1], b.h[2]>>>>
              ELSE [k \in 1..8 |-> <<IF (k - 1) % 2 = 0 THEN b.l[1] ELSE b.h[1], IF ((k - 1) \div 2) % 2 = 0 THEN b.l[2] ELSE b.h[2], IF k <= 4 THEN b.l[3] ELSE b.h[3]>>]
BoxBoth(a, b) == IF BoxKnown(a) /\ BoxKnown(b) THEN BoxAround(<<a.l, a.h, b.l, b.h>>, Max2(a.e, b.e)) ELSE NoBox
BoxShift(b, t, e) == IF BoxKnown(b) THEN BoxE([i \in 1..Len(b.l) |-> b.l[i] + t[i]], [i \in 1..Len(b.l) |-> b.h[i] + t[i]], b.e + e) ELSE NoBox
BoxGrow(b, t) == IF BoxKnown(b) THEN BoxE([i \in 1..Len(b.l) |-> b.l[i] - t[i]], [i \in 1..Len(b.l) |-> b.h[i] + t[i]], b.e) ELSE NoBox
TimesQ(b, n, d) == IF BoxKnown(b) THEN BoxE([i \in 1..Len(b.l) |-> RDiv(b.l[i] * n, d)], [i \in 1..Len(b.l) |-> RDiv(b.h[i] * n, d)], CDiv(b.e * n, d) + 1) ELSE NoBox
BoxHull(bs) == FoldLeft(LAMBDA acc, b : BoxBoth(acc, b), bs[1], Tail(bs))
BoxSmall(b) == BoxKnown(b) /\ \A i \in 1..Len(b.l) : Abs(b.l[i]) <= GUARD /\ Abs(b.h[i]) <= GUARD
\* moving the corners: what rounding does to a point forwards
FErr(m, e) == CASE m[1] \in {1, 6, 7, 8, 9} -> e [] m[1] \in 2..4 -> e + RotErr(m[2]) [] m[1] = 5 -> e + 5
                [] m[1] = 10 -> 1 + e * Max2(CDiv(m[2], m[3]), Max2(CDiv(m[4], m[5]), IF Len(m) > 5 THEN CDiv(m[6], m[7]) ELSE 1))
MovedBox(ms, b) == IF ~BoxSmall(b) THEN NoBox
                   ELSE LET c == BoxCorners(b) IN
                        BoxAround([k \in 1..Len(c) |-> IF Len(b.l) = 2 THEN Do2(ms, c[k]) ELSE Do3(ms, c[k])], FoldRight(LAMBDA m, e : FErr(m, e), ms, 2 * b.e))
Xs(s) == SelectSeq([i \in 1..Len(s.s) |-> i], LAMBDA i : SubSeq(s.s, i, i) = "x")
RECURSIVE Box(_)
Box(s) ==
  CASE s.op = "circ" -> BoxCube(<<s.a[1], s.a[1]>>)
    [] s.op = "box2" -> BoxCube(<<s.a[1] \div 2, s.a[2] \div 2>>)
    [] s.op = "lin" -> BoxCube(<<s.a[1] \div 2 + s.a[2], s.a[2]>>)
    [] s.op = "poly" -> BoxAround(s.p, 0)
    [] s.op = "ngon" -> [BoxAround(NagonV(s.a[1], s.a[2]), 0) EXCEPT !.e = 3]
    [] s.op = "sph" -> BoxCube(<<s.a[1], s.a[1], s.a[1]>>)
    [] s.op = "box3" -> BoxCube(<<s.a[1] \div 2, s.a[2] \div 2, s.a[3] \div 2>>)
    [] s.op \in {"cyl", "cap"} -> BoxCube(<<s.a[2], s.a[2], s.a[1] \div 2>>)
    [] s.op = "cone" -> IF s.a[4] = 0 THEN LET r == Max2(s.a[2], s.a[3]) IN BoxCube(<<r, r, s.a[1] \div 2>>) ELSE NoBox
    [] s.op \in {"xf2", "xf3"} -> MovedBox(s.p, Box(s.c[1]))
    [] s.op \in {"scu2", "scu3"} -> TimesQ(Box(s.c[1]), s.a[1], s.a[2])
    [] s.op = "mat" -> IF s.a[1] = 0 THEN Box(s.c[1]) ELSE TimesQ(Box(s.c[1]), s.a[2], s.a[3])
    [] s.op \in {"un2", "un3"} -> BoxHull([i \in 1..Len(s.c) |-> Box(s.c[i])])
    [] s.op \in {"off2", "off3"} -> IF s.a[1] < 0 THEN NoBox ELSE BoxGrow(Box(s.c[1]), <<s.a[1], s.a[1], s.a[1]>>)
    [] s.op \in {"elo2", "elo3"} -> LET b == Box(s.c[1]) IN
         IF BoxKnown(b) /\ \A i \in 1..Len(b.l) : b.l[i] <= 0 /\ b.h[i] >= 0 THEN BoxGrow(b, [i \in 1..Len(b.l) |-> s.a[i] \div 2]) ELSE NoBox
    [] s.op = "arr2" -> LET b == Box(s.c[1]) IN IF s.a[1] <= 0 \/ s.a[2] <= 0 THEN NoBox ELSE BoxBoth(b, BoxShift(b, <<(s.a[1] - 1) * s.a[3], (s.a[2] - 1) * s.a[4]>>, 0))
    [] s.op = "arr3" -> LET b == Box(s.c[1]) IN IF s.a[1] <= 0 \/ s.a[2] <= 0 \/ s.a[3] <= 0 THEN NoBox ELSE BoxBoth(b, BoxShift(b, <<(s.a[1] - 1) * s.a[4], (s.a[2] - 1) * s.a[5], (s.a[3] - 1) * s.a[6]>>, 0))
    [] s.op = "lin2" -> LET b == Box(s.c[1])  x == Xs(s) IN
         IF x = <<>> THEN NoBox ELSE BoxHull([i \in 1..Len(x) |-> BoxShift(b, <<LinePos(s.a[1], s.a[3], s.s, x[i]), LinePos(s.a[2], s.a[4], s.s, x[i])>>, 1)])
    [] s.op = "lin3" -> LET b == Box(s.c[1])  x == Xs(s) IN
         IF x = <<>> THEN NoBox ELSE BoxHull([i \in 1..Len(x) |-> BoxShift(b, <<LinePos(s.a[1], s.a[4], s.s, x[i]), LinePos(s.a[2], s.a[5], s.s, x[i]), LinePos(s.a[3], s.a[6], s.s, x[i])>>, 1)])
    [] s.op \in {"mul2", "mul3"} -> LET b == Box(s.c[1]) IN IF s.p = <<>> THEN NoBox ELSE BoxHull([i \in 1..Len(s.p) |-> BoxShift(b, s.p[i], 0)])
    [] s.op = "cen2" -> LET b == Box(s.c[1]) IN BoxShift(b, <<-s.a[1], -s.a[2]>>, 0)
    [] s.op = "ces2" -> LET b == Box(s.c[1]) IN TimesQ(BoxShift(b, <<-s.a[1], -s.a[2]>>, 0), s.a[3], s.a[4])
    [] s.op = "ext" -> LET b == Box(s.c[1]) IN
         IF BoxKnown(b) THEN BoxE(<<b.l[1], b.l[2], -(s.a[1] \div 2)>>, <<b.h[1], b.h[2], s.a[1] \div 2>>, b.e) ELSE NoBox
    [] OTHER -> NoBox
===============================================================================
