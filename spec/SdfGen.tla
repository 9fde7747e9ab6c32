-------------------------------- MODULE SdfGen --------------------------------
(* The modelling session as a state machine: a heap of immutable shapes, and actions *)
(* which add a primitive or the result of an operation on earlier shapes. When the    *)
(* session ends, it is written out together with probes: query points and the         *)
(* interval SdfAlgebra gives for every shape of the heap there. Run with -simulate.   *)
EXTENDS SdfAlgebra, TLC, Json, IOUtils, CSV, Randomization
OutFile == IOEnv.OUT
Steps == atoi(IOEnv.STEPS)      \* operations per session
Probes == atoi(IOEnv.PROBES)    \* probes per shape
Focus == IOEnv.FOCUS
VARIABLES heap, ops
vars == <<heap, ops>>
RMAX == 4000
R(lo, hi) == RandomElement(lo..hi)
Pick(S) == RandomElement(S)
Even(lo, hi) == 2 * R(lo \div 2, hi \div 2)
Bool(x) == Pick({TRUE, FALSE})
SeqN(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Angle(x) == LET k == R(1, 4) IN
   CASE k = 1 -> Pick({0, 3000, 4500, 6000, 9000, 12000, 13500, 18000, 22500, 27000, 31500})
     [] k = 2 -> R(-18000, 18000) [] k = 3 -> R(0, 36000) [] OTHER -> 9000 * R(-3, 3)
Ops2 == CASE Focus = "C10" -> {"un2", "un2", "di2", "in2", "cut2"}
          [] Focus = "C11" -> {"xf2", "xs2", "scu2", "off2", "elo2", "arr2", "rotu2", "rotc2", "lin2", "mul2", "cen2", "ces2"}
          [] Focus = "C12" -> {"slc"}
          [] Focus = "C14" -> {}
          [] Focus = "C24" -> {}
          [] Focus = "C25" -> {"un2", "di2", "in2"}
          [] OTHER -> {"un2", "di2", "in2", "cut2", "xf2", "xs2", "scu2", "off2", "elo2", "arr2", "rotu2", "rotc2", "lin2", "mul2", "slc"}
Ops3 == CASE Focus = "C10" -> {"un3", "di3", "in3", "cut3"}
          [] Focus = "C11" -> {"xf3", "xs3", "scu3", "off3", "she3", "elo3", "arr3", "rotu3", "rotc3", "lin3", "mul3", "ori3"}
          [] Focus = "C12" -> {"ext", "twi", "sce", "sct", "exr", "lof", "rev"}
          [] Focus = "C14" -> {}
          [] Focus = "C24" -> {"un3", "xf3", "mat", "mat", "mat"}
          [] Focus = "C25" -> {"un3", "di3", "in3", "cut3", "xf3", "xf3", "scu3", "off3", "ext", "rev"}
          [] OTHER -> {"un3", "di3", "in3", "cut3", "xf3", "xs3", "scu3", "off3", "she3", "elo3", "arr3", "rotu3", "rotc3", "lin3", "mul3", "ori3",
                       "ext", "twi", "sce", "sct", "exr", "lof", "rev"}
Help2 == {"un2", "xf2", "di2"}
Help3 == {"un3", "xf3", "ext"}

Node(op, c, a, s, p) == [op |-> op, c |-> c, a |-> a, s |-> s, p |-> p]
\* entry: node n, dimension d, radius r about the origin, smallest extent m,
\* values outside are distances x, points of interest q, shape of revolution v
Ent(n, d, r, m, x, q, in, v) == [n |-> n, d |-> d, r |-> r, m |-> m, x |-> x, q |-> q, in |-> in, v |-> v]
Sub(q, k) == IF Len(q) <= k THEN q ELSE LET o == R(0, Len(q) - 1)  st == Pick({1, 2, 3, 5}) IN
             SeqN(k, LAMBDA i : q[((o + st * i) % Len(q)) + 1])

\* ------------------------------------------------------------------ primitives
StarPoly(x) ==
   LET n == R(3, 7)  dx == Pick({0, 0, R(-300, 300)})  dy == Pick({0, 0, R(-300, 300)})  o == R(0, 5000)
       v == SeqN(n, LAMBDA i : LET t == Rot2(<<R(60, 600), 0>>, o + (36000 * i) \div n + R(0, 1500)) IN <<t[1] + dx, t[2] + dy>>)
       w == IF Bool(0) THEN v ELSE Reverse(v) IN
   IF R(1, 4) = 1 THEN w \o <<w[1]>> ELSE w
Extent(v, i) == LET F(S) == Max(S) - Min(S)
                    Mx == FoldLeft(LAMBDA acc, t : Max2(acc, t[i]), -BIG, v)
                    Mn == FoldLeft(LAMBDA acc, t : Min2(acc, t[i]), BIG, v) IN Mx - Mn
PolyR(v) == 1 + FoldLeft(LAMBDA acc, t : Max2(acc, Hyp2(t[1], t[2])), 0, v)
Prim2(kind) ==
   CASE kind = "circ" -> LET r == R(20, 500) IN
          Ent(Node("circ", <<>>, <<r>>, "", <<>>), 2, r, 2 * r, TRUE, <<<<r, 0>>, <<0, r>>, <<0, -r>>, <<-r, 0>>, <<0, 0>>>>, <<>>, FALSE)
     [] kind = "box2" -> LET w == Even(40, 1000)  h == Even(40, 1000)  mn == Min2(w, h) \div 2  rd == Pick({0, mn, R(0, mn), R(0, mn)}) IN
          Ent(Node("box2", <<>>, <<w, h, rd>>, "", <<>>), 2, Hyp2(w, h) \div 2 + 1, Min2(w, h), TRUE,
              <<<<w \div 2, h \div 2>>, <<-w \div 2, h \div 2>>, <<w \div 2, 0>>, <<0, -(h \div 2)>>, <<0, 0>>, <<w \div 2 - rd, h \div 2 - rd>>>>, <<>>, FALSE)
     [] kind = "lin" -> LET l == Even(0, 800)  rd == R(20, 200) IN
          Ent(Node("lin", <<>>, <<l, rd>>, "", <<>>), 2, l \div 2 + rd, 2 * rd, TRUE, <<<<l \div 2, rd>>, <<-(l \div 2) - rd, 0>>, <<l \div 2 + rd, 0>>, <<0, -rd>>, <<0, 0>>>>, <<>>, FALSE)
     [] kind = "poly" -> LET v == StarPoly(0) IN
          Ent(Node("poly", <<>>, <<>>, "", v), 2, PolyR(v), Min2(Extent(v, 1), Extent(v, 2)), TRUE, Sub(v, 5), <<>>, FALSE)
     [] kind = "ngon" -> LET n == R(3, 12)  r == R(60, 500) IN
          Ent(Node("ngon", <<>>, <<n, r>>, "", <<>>), 2, r + 1, r, TRUE, Sub(NagonV(n, r), 4), <<>>, FALSE)
Cone1(h, r0, r1, rd) ==
   Ent(Node("cone", <<>>, <<h, r0, r1, rd>>, "", <<>>), 3, Hyp2(Max2(r0, r1), h \div 2) + 1, Min2(h, 2 * Max2(r0, r1)), TRUE,
       <<<<r0, 0, -(h \div 2)>>, <<r1, 0, h \div 2>>, <<0, (r0 + r1) \div 2, 0>>, <<0, 0, 0>>, <<0, r1 \div 2, h \div 2>>>>, <<>>, TRUE)
Prim3(kind) ==
   CASE kind = "sph" -> LET r == R(20, 500) IN
          Ent(Node("sph", <<>>, <<r>>, "", <<>>), 3, r, 2 * r, TRUE, <<<<r, 0, 0>>, <<0, 0, r>>, <<0, -r, 0>>, <<0, 0, 0>>>>, <<>>, TRUE)
     [] kind = "box3" -> LET w == Even(40, 1000)  h == Even(40, 1000)  d == Even(40, 1000)  mn == Min2(w, Min2(h, d)) \div 2  rd == Pick({0, mn, R(0, mn), R(0, mn)}) IN
          Ent(Node("box3", <<>>, <<w, h, d, rd>>, "", <<>>), 3, Hyp3(w, h, d) \div 2 + 1, 2 * mn, TRUE,
              <<<<w \div 2, h \div 2, d \div 2>>, <<-(w \div 2), h \div 2, 0>>, <<w \div 2, 0, 0>>, <<0, 0, -(d \div 2)>>, <<0, 0, 0>>, <<0, h \div 2, -(d \div 2)>>>>, <<>>, FALSE)
     [] kind = "cyl" -> LET h == Even(40, 1000)  r == R(20, 500)  mn == Min2(h \div 2, r)  rd == Pick({0, mn, R(0, mn)}) IN
          Ent(Node("cyl", <<>>, <<h, r, rd>>, "", <<>>), 3, Hyp2(h \div 2, r) + 1, 2 * mn, TRUE,
              <<<<r, 0, h \div 2>>, <<0, r, 0>>, <<0, 0, h \div 2>>, <<0, 0, 0>>, <<-r, 0, -(h \div 2)>>>>, <<>>, TRUE)
     [] kind = "cap" -> LET r == R(20, 300)  h == Pick({2 * r, 2 * r + Even(0, 600)}) IN
          Ent(Node("cap", <<>>, <<h, r>>, "", <<>>), 3, h \div 2, 2 * r, TRUE,
              <<<<r, 0, h \div 2 - r>>, <<0, 0, h \div 2>>, <<0, r, 0>>, <<0, 0, 0>>, <<0, 0, -(h \div 2)>>>>, <<>>, TRUE)
     [] kind = "cone" -> LET h == Even(60, 800)  r0 == R(0, 400)  r1 == IF r0 < 40 THEN R(60, 400) ELSE R(0, 400)
                             rd == Pick({0, R(1, h \div 2 - 1), R(1, 30)}) IN
          IF rd > 0 /\ (ConeIn(h, r0, r1, rd, TRUE) < 5 \/ ConeIn(h, r0, r1, rd, FALSE) < 5) THEN Cone1(h, r0, r1, 0) ELSE Cone1(h, r0, r1, rd)
     [] kind = "chc" -> LET h == Even(200, 800)  r == 20 * R(2, 20)  mx == Min2(45, (h * 45) \div r)  kb == Pick({0, R(1, mx)})  kt == Pick({0, R(1, mx)}) IN
          Ent(Node("chc", <<>>, <<h, r, kb, kt>>, "", <<>>), 3, Hyp2(h \div 2, r) + 1, Min2(h, 2 * r), FALSE,
              <<<<r, 0, h \div 2>>, <<0, r, -(h \div 2)>>, <<(r * (200 - kt)) \div 200, 0, h \div 2 - (r * kt) \div 200>>, <<0, 0, 0>>>>, <<>>, TRUE)
PrimKinds2 == {"circ", "box2", "lin", "poly", "poly", "ngon"}
PrimKinds3 == {"sph", "box3", "cyl", "cap", "cone", "chc"}

LPos(a, b, pt, k) == IF pt = "" THEN a ELSE LinePos(a, b, pt, k)
HasX(pt) == \E i \in 1..Len(pt) : SubSeq(pt, i, i) = "x"
\* ------------------------------------------------------------------ operations
Cands(d) == { i \in 1..Len(heap) : heap[i].d = d }
CandsX(d) == { i \in Cands(d) : heap[i].x }
Move3(x) == LET k == R(1, 9) IN
   IF k = 1 \/ k = 2 THEN <<1, R(-900, 900), R(-900, 900), R(-900, 900)>>
   ELSE IF k \in 3..5 THEN <<k - 1, Angle(0)>>
   ELSE IF k = 6 THEN LET u == Pick({<<1, 2, 2>>, <<2, -3, 6>>, <<-4, 4, 7>>, <<0, 3, 4>>, <<2, 1, -2>>, <<0, 0, -1>>}) IN <<5, Angle(0), u[1], u[2], u[3]>>
   ELSE <<Pick(6..9)>>
Move2(x) == LET k == R(1, 4) IN
   IF k <= 2 THEN <<1, R(-900, 900), R(-900, 900)>> ELSE IF k = 3 THEN <<4, Angle(0)>> ELSE <<Pick(7..8)>>
MovesLen(ms) == FoldLeft(LAMBDA acc, m : IF m[1] = 1 THEN acc + Abs(m[2]) + Abs(m[3]) + (IF Len(m) = 4 THEN Abs(m[4]) ELSE 0) ELSE acc, 0, ms)
Frac(x) == Pick({<<2, 1>>, <<1, 2>>, <<3, 2>>, <<3, 4>>, <<1, 1>>, <<5, 2>>})
Un(i, n, d, r, m, x, q, v) == Ent(n, d, r, m, x, q, <<i>>, v)
Shift(q, t) == [i \in 1..Len(q) |-> IF Len(t) = 2 THEN <<q[i][1] + t[1], q[i][2] + t[2]>> ELSE <<q[i][1] + t[1], q[i][2] + t[2], q[i][3] + t[3]>>]
PatSet == {"", ".", "x", "xx", "x.x", ".xx.", "xxx", "..x", "x..x.", "xxxx.xxx.xx.x"}
B(b) == IF b THEN 1 ELSE 0
\* now and then a pattern of many copies of a simple shape
Lots(s) == s.n.c = <<>> /\ R(1, 7) = 1
Op2(kind) ==
   LET i == Pick(Cands(2))  j == Pick(Cands(2))  s == heap[i]  t == heap[j] IN
   CASE kind = "un2" -> LET k == Pick(Cands(2))  three == R(1, 3) = 1
                            l == IF three THEN (IF R(1, 4) = 1 THEN <<i, j, k>> \o SeqN(R(3, 9), LAMBDA h : Pick({i, j, k})) ELSE <<i, j, k>>) ELSE <<i, j>>
                            x == \A h \in 1..Len(l) : heap[l[h]].x IN
          Ent(Node("un2", [h \in 1..Len(l) |-> heap[l[h]].n], <<B(x)>>, "", <<>>), 2, Max2(s.r, Max2(t.r, heap[k].r)), Max2(s.m, t.m), x,
              Sub(s.q \o t.q, 8), l, FALSE)
     [] kind = "di2" -> Ent(Node("di2", <<s.n, t.n>>, <<>>, "", <<>>), 2, s.r, s.m, FALSE, Sub(s.q \o t.q, 8), <<i, j>>, FALSE)
     [] kind = "in2" -> Ent(Node("in2", <<s.n, t.n>>, <<>>, "", <<>>), 2, s.r, s.m, FALSE, Sub(s.q \o t.q, 8), <<i, j>>, FALSE)
     [] kind = "cut2" -> LET v == Pick({<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<3, 4>>, <<-4, 3>>, <<5, -12>>, <<-3, -4>>, <<0, -2>>})
                             a == <<R(-s.r, s.r) \div 2, R(-s.r, s.r) \div 2>> IN
          Un(i, Node("cut2", <<s.n>>, <<a[1], a[2], v[1], v[2]>>, "", <<>>), 2, s.r, s.m, FALSE, Append(Sub(s.q, 5), a), FALSE)
     [] kind = "xf2" -> LET ms == SeqN(R(1, 3), Move2) IN
          Un(i, Node("xf2", <<s.n>>, <<>>, "", ms), 2, s.r + MovesLen(ms), s.m, s.x, SeqN(Len(s.q), LAMBDA h : Do2(ms, s.q[h])), FALSE)
     [] kind = "xs2" -> LET f == Frac(0)  g == Frac(0)  m1 == Move2(0)
                            ms == Pick({ <<<<10, f[1], f[2], g[1], g[2]>>, m1>>, <<m1, <<10, f[1], f[2], g[1], g[2]>>>> }) IN
          Un(i, Node("xf2", <<s.n>>, <<>>, "", ms), 2, 3 * (s.r + MovesLen(ms)), s.m \div 2, FALSE, SeqN(Len(s.q), LAMBDA h : Do2(ms, s.q[h])), FALSE)
     [] kind = "scu2" -> LET f == Frac(0) IN
          Un(i, Node("scu2", <<s.n>>, f, "", <<>>), 2, CDiv(s.r * f[1], f[2]), (s.m * f[1]) \div f[2], s.x, SeqN(Len(s.q), LAMBDA h : <<RDiv(s.q[h][1] * f[1], f[2]), RDiv(s.q[h][2] * f[1], f[2])>>), FALSE)
     [] kind = "off2" -> LET o == IF R(1, 3) = 1 /\ s.m > 20 THEN -R(0, s.m \div 3) ELSE R(0, 300) IN
          IF Focus # "C11" /\ ~s.x THEN Prim2(Pick(PrimKinds2)) ELSE
          Un(i, Node("off2", <<s.n>>, <<o>>, "", <<>>), 2, s.r + Max2(o, 0), s.m + 2 * o, s.x /\ o >= 0, Shift(s.q, <<Pick({o, -o, 0}), Pick({o, -o, 0})>>), FALSE)
     [] kind = "elo2" -> LET h == <<Pick({0, Even(0, 800)}), Even(0, 800)>>  sg == Pick({1, 1, -1}) IN
          Un(i, Node("elo2", <<s.n>>, <<h[1], h[2], sg>>, "", <<>>), 2, s.r + (h[1] + h[2]) \div 2, s.m, FALSE,
             Shift(s.q, <<Pick({1, -1}) * (h[1] \div 2), Pick({1, -1}) * (h[2] \div 2)>>) \o <<<<h[1] \div 2, h[2] \div 2>>>>, FALSE)
     [] kind = "arr2" -> LET lots == Lots(s)  n == IF lots THEN <<R(4, 14), R(3, 9)>> ELSE <<R(0, 3), R(0, 3)>>
                             st == IF lots THEN <<R(-120, 120), R(-120, 120)>> ELSE <<R(-700, 700), R(-700, 700)>> IN
          LET nn == IF n[1] = 0 /\ R(1, 3) > 1 THEN <<1, n[2]>> ELSE n IN
          Un(i, Node("arr2", <<s.n>>, <<nn[1], nn[2], st[1], st[2]>>, "", <<>>), 2, s.r + Max2(2, nn[1]) * Abs(st[1]) + Max2(2, nn[2]) * Abs(st[2]), 0, s.x /\ nn[1] > 0 /\ nn[2] > 0,
             Shift(Sub(s.q, 4), <<st[1] * Max2(nn[1] - 1, 0), st[2] * Max2(nn[2] - 1, 0)>>) \o Shift(Sub(s.q, 3), <<st[1] * nn[1], st[2] * R(0, Max2(nn[2], 0))>>), FALSE)
     [] kind = "rotu2" -> LET lots == Lots(s)  n == IF lots THEN R(9, 30) ELSE R(0, 5)  ms == IF lots THEN <<<<4, Pick({36000 \div n, Angle(0)})>>>> ELSE Pick({ <<<<4, Angle(0)>>>>, <<<<4, 36000 \div Max2(n, 1)>>>>, <<<<1, R(-300, 300), R(-300, 300)>>, <<4, Angle(0)>>>> }) IN
          Un(i, Node("rotu2", <<s.n>>, <<n>>, "", ms), 2, s.r + n * MovesLen(ms), 0, s.x /\ n > 0,
             SeqN(Len(s.q), LAMBDA h : Do2(FlattenSeq([k \in 1..R(0, n) |-> ms]), s.q[h])), FALSE)
     [] kind = "rotc2" -> LET n == IF Lots(s) THEN R(8, 60) ELSE R(1, 7) IN
          Un(i, Node("rotc2", <<s.n>>, <<n>>, "", <<>>), 2, s.r, 0, FALSE, SeqN(Len(s.q), LAMBDA h : Rot2(s.q[h], (36000 * R(0, n)) \div n)), FALSE)
     [] kind = "lin2" -> LET pt == Pick(PatSet)  a == <<R(-600, 600), R(-600, 600), R(-600, 600), R(-600, 600)>>  k == R(1, Max2(Len(pt), 1)) IN
          Un(i, Node("lin2", <<s.n>>, Append(a, B(s.x)), pt, <<>>), 2, s.r + 1200, 0, s.x /\ HasX(pt),
             Shift(Sub(s.q, 4), <<LPos(a[1], a[3], pt, k), LPos(a[2], a[4], pt, k)>>) \o Shift(Sub(s.q, 3), <<a[3], a[4]>>), FALSE)
     [] kind = "mul2" -> LET n == IF Lots(s) THEN R(5, 24) ELSE R(1, 4)  ps == SeqN(n, LAMBDA h : <<R(-900, 900), R(-900, 900)>>) IN
          Un(i, Node("mul2", <<s.n>>, <<B(s.x)>>, "", ps), 2, s.r + 1300, 0, s.x, Shift(Sub(s.q, 4), ps[1]) \o Shift(Sub(s.q, 3), ps[n]), FALSE)
     [] kind = "cen2" -> \* centring needs the bounds: only for symmetric primitives moved away
          LET b == Prim2(Pick({"circ", "box2", "lin"}))  t0 == <<R(-500, 500), R(-500, 500)>> IN
          Ent(Node("cen2", <<Node("xf2", <<b.n>>, <<>>, "", <<<<1, t0[1], t0[2]>>>>)>>, t0, "", <<>>), 2, b.r, b.m, TRUE, b.q, <<0>>, FALSE)
     [] kind = "ces2" ->
          LET b == Prim2(Pick({"circ", "box2", "lin"}))  t0 == <<R(-500, 500), R(-500, 500)>>  f == Frac(0) IN
          Ent(Node("ces2", <<Node("xf2", <<b.n>>, <<>>, "", <<<<1, t0[1], t0[2]>>>>)>>, t0 \o f, "", <<>>), 2, CDiv(b.r * f[1], f[2]), (b.m * f[1]) \div f[2], TRUE,
              SeqN(Len(b.q), LAMBDA h : <<RDiv(b.q[h][1] * f[1], f[2]), RDiv(b.q[h][2] * f[1], f[2])>>), <<0>>, FALSE)
     [] kind = "slc" -> LET w == Pick(Cands(3))  u == heap[w]
                            n == Pick({<<0, 0, 1>>, <<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>, <<0, 3, 4>>, <<4, 0, -3>>, <<3, 4, 0>>, <<3, 4, 12>>, <<-4, 3, 12>>, <<6, 8, -24>>, <<-5, 12, 84>>, <<0, -5, 12>>})
                            a == <<R(-u.r, u.r) \div 3, R(-u.r, u.r) \div 3, R(-u.r, u.r) \div 3>> IN
          Ent(Node("slc", <<u.n>>, a \o n, "", <<>>), 2, 2 * u.r, 0, FALSE, <<<<0, 0>>, <<u.r \div 2, 0>>, <<0, u.r \div 2>>, <<-(u.r \div 4), u.r \div 3>>>>, <<w>>, FALSE)
Op3(kind) ==
   LET i == Pick(Cands(3))  j == Pick(Cands(3))  s == heap[i]  t == heap[j] IN
   CASE kind = "un3" -> LET k == Pick(Cands(3))  l == IF R(1, 3) = 1 THEN (IF R(1, 4) = 1 THEN <<i, j, k>> \o SeqN(R(3, 9), LAMBDA h : Pick({i, j, k})) ELSE <<i, j, k>>) ELSE <<i, j>> IN
          Ent(Node("un3", [h \in 1..Len(l) |-> heap[l[h]].n], <<>>, "", <<>>), 3, Max2(s.r, Max2(t.r, heap[k].r)), Max2(s.m, t.m),
              \A h \in 1..Len(l) : heap[l[h]].x, Sub(s.q \o t.q, 8), l, FALSE)
     [] kind = "di3" -> Ent(Node("di3", <<s.n, t.n>>, <<>>, "", <<>>), 3, s.r, s.m, FALSE, Sub(s.q \o t.q, 8), <<i, j>>, FALSE)
     [] kind = "in3" -> Ent(Node("in3", <<s.n, t.n>>, <<>>, "", <<>>), 3, s.r, s.m, FALSE, Sub(s.q \o t.q, 8), <<i, j>>, FALSE)
     [] kind = "cut3" -> LET v == Pick({<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<1, 2, 2>>, <<-2, 3, 6>>, <<2, -1, 2>>, <<0, 3, -4>>, <<0, 0, -3>>})
                             a == <<R(-s.r, s.r) \div 2, R(-s.r, s.r) \div 2, R(-s.r, s.r) \div 2>> IN
          Un(i, Node("cut3", <<s.n>>, a \o v, "", <<>>), 3, s.r, s.m, FALSE, Append(Sub(s.q, 5), a), FALSE)
     [] kind = "xf3" -> LET ms == SeqN(R(1, 3), Move3) IN
          Un(i, Node("xf3", <<s.n>>, <<>>, "", ms), 3, s.r + MovesLen(ms), s.m, s.x, SeqN(Len(s.q), LAMBDA h : Do3(ms, s.q[h])), FALSE)
     [] kind = "xs3" -> LET f == Frac(0)  g == Frac(0)  k == Frac(0)  m1 == Move3(0)
                            ms == Pick({ <<<<10, f[1], f[2], g[1], g[2], k[1], k[2]>>, m1>>, <<m1, <<10, f[1], f[2], g[1], g[2], k[1], k[2]>>>> }) IN
          Un(i, Node("xf3", <<s.n>>, <<>>, "", ms), 3, 3 * (s.r + MovesLen(ms)), s.m \div 2, FALSE, SeqN(Len(s.q), LAMBDA h : Do3(ms, s.q[h])), FALSE)
     [] kind = "scu3" -> LET f == Frac(0) IN
          Un(i, Node("scu3", <<s.n>>, f, "", <<>>), 3, CDiv(s.r * f[1], f[2]), (s.m * f[1]) \div f[2], s.x,
             SeqN(Len(s.q), LAMBDA h : SeqN(3, LAMBDA k : RDiv(s.q[h][k] * f[1], f[2]))), FALSE)
     \* for an ideal material or for PLA, over and over; a length inside the part in micrometres and what
     \* to draw instead in nanometres: 0.3 percent of shrinkage and 0.45 mm of pull (0: PLA has no such length)
     [] kind = "mat" -> LET f == Pick({<<0, 1, 1>>, <<1, 1003, 1000>>, <<1, 1003, 1000>>, <<20, 10617, 10000>>, <<40, 11273, 10000>>})
                            len == Pick({R(1, 2000000), R(-50, 50), 0, R(1, 4000)}) IN
          Un(i, Node("mat", <<s.n>>, f \o <<len, IF f[1] = 0 THEN len * 1000 ELSE IF len <= 0 THEN 0 ELSE len * 1003 + 450000>>, "", <<>>), 3, CDiv(s.r * f[2], f[3]), s.m, s.x,
             SeqN(Len(s.q), LAMBDA h : SeqN(3, LAMBDA k : RDiv(s.q[h][k] * f[2], f[3]))), FALSE)
     [] kind = "off3" -> LET o == IF R(1, 3) = 1 /\ s.m > 20 THEN -R(0, s.m \div 3) ELSE R(0, 300) IN
          IF Focus # "C11" /\ ~s.x THEN Prim3(Pick(PrimKinds3)) ELSE
          Un(i, Node("off3", <<s.n>>, <<o>>, "", <<>>), 3, s.r + Max2(o, 0), s.m + 2 * o, s.x /\ o >= 0, Shift(s.q, <<Pick({o, -o, 0}), Pick({o, -o, 0}), Pick({o, -o, 0})>>), FALSE)
     [] kind = "she3" -> LET w == Pick({0, Even(2, 200), Even(2, 200), Even(2, 600)}) IN
          IF Focus # "C11" /\ ~s.x THEN Prim3(Pick(PrimKinds3)) ELSE
          Un(i, Node("she3", <<s.n>>, <<w>>, "", <<>>), 3, s.r + w, s.m, FALSE, Shift(s.q, <<Pick({w \div 2, -w \div 2, 0}), 0, Pick({w \div 2, -w \div 2, 0})>>), FALSE)
     [] kind = "elo3" -> LET h == <<Pick({0, Even(0, 800)}), Even(0, 800), Pick({0, Even(0, 800)})>>  sg == Pick({1, 1, -1}) IN
          Un(i, Node("elo3", <<s.n>>, h \o <<sg>>, "", <<>>), 3, s.r + (h[1] + h[2] + h[3]) \div 2, s.m, FALSE,
             Shift(s.q, <<Pick({1, -1}) * (h[1] \div 2), Pick({1, -1}) * (h[2] \div 2), Pick({1, -1}) * (h[3] \div 2)>>), FALSE)
     [] kind = "arr3" -> LET lots == Lots(s)  n0 == IF lots THEN <<R(3, 8), R(2, 5), R(2, 4)>> ELSE <<R(0, 2), R(1, 3), R(1, 2)>>  n == IF n0[1] = 0 /\ R(1, 3) > 1 THEN <<1, n0[2], n0[3]>> ELSE n0
                             st == IF lots THEN <<R(-150, 150), R(-150, 150), R(-150, 150)>> ELSE <<R(-700, 700), R(-500, 500), R(-700, 700)>> IN
          Un(i, Node("arr3", <<s.n>>, n \o st, "", <<>>), 3, s.r + Max2(2, n[1]) * Abs(st[1]) + Max2(2, n[2]) * Abs(st[2]) + Max2(2, n[3]) * Abs(st[3]), 0, s.x /\ n[1] > 0,
             Shift(Sub(s.q, 4), <<st[1] * Max2(n[1] - 1, 0), st[2] * (n[2] - 1), st[3] * (n[3] - 1)>>) \o Shift(Sub(s.q, 3), <<st[1] * n[1], st[2] * R(0, n[2]), st[3] * R(0, n[3])>>), FALSE)
     [] kind = "rotu3" -> LET lots == Lots(s)  n == IF lots THEN R(9, 30) ELSE R(0, 5)  ms == IF lots THEN <<<<4, Pick({36000 \div n, Angle(0)})>>>> ELSE Pick({ <<<<4, Angle(0)>>>>, <<<<4, 36000 \div Max2(n, 1)>>>>, <<<<1, R(-200, 200), R(-200, 200), R(-200, 200)>>, <<4, Angle(0)>>>>, <<<<2, 3000>>>> }) IN
          Un(i, Node("rotu3", <<s.n>>, <<n>>, "", ms), 3, s.r + n * MovesLen(ms), 0, s.x /\ n > 0,
             SeqN(Len(s.q), LAMBDA h : Do3(FlattenSeq([k \in 1..R(0, n) |-> ms]), s.q[h])), FALSE)
     [] kind = "rotc3" -> LET n == IF Lots(s) THEN R(8, 60) ELSE R(0, 7) IN
          Un(i, Node("rotc3", <<s.n>>, <<n>>, "", <<>>), 3, s.r, 0, FALSE, SeqN(Len(s.q), LAMBDA h : Fwd3(<<4, (36000 * R(0, n)) \div Max2(n, 1)>>, s.q[h])), FALSE)
     [] kind = "lin3" -> LET pt == Pick(PatSet)  a == SeqN(6, LAMBDA h : R(-600, 600))  k == R(1, Max2(Len(pt), 1)) IN
          Un(i, Node("lin3", <<s.n>>, a, pt, <<>>), 3, s.r + 1200, 0, s.x /\ HasX(pt),
             Shift(Sub(s.q, 4), <<LPos(a[1], a[4], pt, k), LPos(a[2], a[5], pt, k), LPos(a[3], a[6], pt, k)>>) \o Shift(Sub(s.q, 3), <<a[4], a[5], a[6]>>), FALSE)
     [] kind = "mul3" -> LET n == IF Lots(s) THEN R(5, 24) ELSE R(0, 4)  ps == SeqN(n, LAMBDA h : <<R(-900, 900), R(-900, 900), R(-900, 900)>>) IN
          Un(i, Node("mul3", <<s.n>>, <<>>, "", ps), 3, s.r + 1600, 0, s.x /\ n > 0, IF n = 0 THEN s.q ELSE Shift(Sub(s.q, 4), ps[1]) \o Shift(Sub(s.q, 3), ps[n]), FALSE)
     [] kind = "ori3" -> LET vs == { h \in Cands(3) : heap[h].v } IN
          IF vs = {} THEN Prim3(Pick({"sph", "cyl", "cone"})) ELSE
          LET w == Pick(vs)  u == heap[w]
              ds == SeqN(R(1, 4), LAMBDA h : Pick({<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>, <<0, -1, 0>>, <<1, 2, 2>>, <<-2, 3, 6>>, <<2, -1, -2>>, <<0, 3, -4>>, <<-6, -2, 3>>})) IN
          Ent(Node("ori3", <<u.n>>, <<>>, "", ds), 3, u.r, u.m, u.x, SeqN(Len(u.q), LAMBDA h : LET d == ds[R(1, Len(ds))] IN Along(d, u.q[h][3])), <<w>>, FALSE)
     [] OTHER -> LET a == Pick(Cands(2))  b == Pick(Cands(2))  f == heap[a]  g == heap[b]  h == Even(60, 1400)
                     zs(x) == Pick({0, h \div 2, -(h \div 2), R(-h, h) \div 2, h \div 4})
                     up == SeqN(Len(f.q), LAMBDA k : Append(f.q[k], zs(0)))
                     tw == Pick({0, 4500, 9000, -9000, R(-36000, 36000), 36000, 54000})
                     \* the extrusion function may be given later, with SetExtrude; bounds do not follow it
                     How == IF Focus = "C12" /\ R(1, 4) = 1 THEN "set" ELSE ""
                     fx == Frac(0)  fy == IF Bool(0) THEN fx ELSE Frac(0) IN
     CASE kind = "ext" -> Ent(Node("ext", <<f.n>>, <<h>>, "", <<>>), 3, f.r + h \div 2, Min2(f.m, h), FALSE, up, <<a>>, FALSE)
       [] kind = "twi" -> Ent(Node("twi", <<f.n>>, <<h, tw>>, How, <<>>), 3, f.r + h \div 2, Min2(f.m, h), FALSE,
                              SeqN(Len(up), LAMBDA k : LET r == Rot2(<<up[k][1], up[k][2]>>, -RDiv(tw * up[k][3], h)) IN <<r[1], r[2], up[k][3]>>), <<a>>, FALSE)
       [] kind = "sce" -> Ent(Node("sce", <<f.n>>, <<h>> \o fx \o fy, How, <<>>), 3, 3 * f.r + h \div 2, 0, FALSE,
                              SeqN(Len(up), LAMBDA k : IF up[k][3] >= h \div 2 THEN <<RDiv(up[k][1] * fx[1], fx[2]), RDiv(up[k][2] * fy[1], fy[2]), up[k][3]>> ELSE up[k]), <<a>>, FALSE)
       [] kind = "sct" -> Ent(Node("sct", <<f.n>>, <<h, tw>> \o fx \o fy, How, <<>>), 3, 3 * f.r + h \div 2, 0, FALSE,
                              SeqN(Len(up), LAMBDA k : LET r == Rot2(<<up[k][1], up[k][2]>>, -RDiv(tw * up[k][3], h)) IN
                                   IF up[k][3] >= h \div 2 THEN <<RDiv(r[1] * fx[1], fx[2]), RDiv(r[2] * fy[1], fy[2]), up[k][3]>> ELSE <<r[1], r[2], up[k][3]>>), <<a>>, FALSE)
       [] kind = "exr" -> LET rd == Pick({0, h \div 2, R(0, h \div 2), R(0, 60), h}) IN
                          IF Focus # "C12" /\ ~f.x THEN Prim3(Pick(PrimKinds3)) ELSE
                          Ent(Node("exr", <<f.n>>, <<h, rd>>, "", <<>>), 3, f.r + h \div 2 + rd, 0, FALSE, Shift(up, <<Pick({rd, -rd, 0}), 0, 0>>), <<a>>, FALSE)
       [] kind = "lof" -> LET rd == Pick({0, 0, R(0, h \div 2 - 2), R(0, 28)}) IN
                          IF Focus # "C12" /\ ~(f.x /\ g.x) THEN Prim3(Pick(PrimKinds3)) ELSE
                          Ent(Node("lof", <<f.n, g.n>>, <<h, rd>>, "", <<>>), 3, Max2(f.r, g.r) + h \div 2 + rd, 0, FALSE,
                              up \o SeqN(Len(g.q), LAMBDA k : Append(g.q[k], zs(0))), <<a, b>>, FALSE)
       [] kind = "rev" -> LET th == Pick({36000, 36000, 9000, 18000, 27000, 72000, R(100, 35900), R(100, 35900), R(36100, 71900), 35960, 36040, 0}) IN
                          Ent(Node("rev", <<f.n>>, <<th>>, "", <<>>), 3, f.r, IF th = 36000 THEN f.m \div 2 ELSE 0, FALSE,
                              SeqN(Len(f.q), LAMBDA k : LET r == Rot2(<<Abs(f.q[k][1]), 0>>, Pick({0, th, R(0, 36000), R(0, th)})) IN <<r[1], r[2], f.q[k][2]>>), <<a>>, th = 36000 \/ th = 72000)
\* ------------------------------------------------------------------ session
Prims0 == IF Focus = "C14" THEN 6 ELSE 4
Step ==
   LET n == Len(heap)
       d3 == R(1, 2) = 1
       help == R(1, 4) = 1
       o2 == IF help THEN Help2 ELSE Ops2   o3 == IF help THEN Help3 ELSE Ops3
       want2 == Ops2 # {} /\ (Ops3 = {} \/ R(1, 5) <= 2)
       e == IF n < Prims0 \/ Focus = "C14" THEN (IF n % 2 = 0 THEN Prim2(Pick(PrimKinds2)) ELSE Prim3(Pick(PrimKinds3)))
            ELSE IF want2 THEN Op2(Pick(o2)) ELSE Op3(Pick(o3))
       en == TLCEval(e)
       ok == en.r <= RMAX
       en2 == IF ok THEN en ELSE IF en.d = 2 THEN Prim2(Pick(PrimKinds2)) ELSE Prim3(Pick(PrimKinds3)) IN
   heap' = Append(heap, en2)
Jit(q, r) == LET k == Pick({0, 3, 10, 30, Max2(r \div 8, 5), Max2(r \div 2, 9)}) IN
             SeqN(Len(q), LAMBDA i : q[i] + R(-k, k))
Probe(en) ==
   LET n == Len(en.q)
       P(i) == IF i <= (3 * Probes) \div 4 /\ n > 0 THEN Jit(en.q[(i % n) + 1], en.r)
               ELSE SeqN(en.d, LAMBDA k : LET b == (en.r * 13) \div 10 IN R(-b, b))
       One(i) == LET p == TLCEval(P(i)) IN p \o (IF en.d = 2 THEN E2(en.n, p, 0) ELSE E3(en.n, p, 0)) IN
   SeqN(Probes, One)
\* operations are written with the indices of their operands
Out(en, pr) == [op |-> en.n.op, in |-> en.in, a |-> en.n.a, s |-> en.n.s, p |-> en.n.p, d |-> en.d, r |-> en.r, x |-> B(en.x),
                pr |-> pr, box |-> IF Focus \in {"C13", "C24"} THEN Box(en.n) ELSE NoBox, in0 |-> IF en.in = <<0>> THEN <<[op |-> en.n.c[1].c[1].op, a |-> en.n.c[1].c[1].a]>> ELSE <<>>]
Finish ==
   /\ Len(heap) = Steps
   /\ ops = <<>>
   /\ ops' = SeqN(Len(heap), LAMBDA i : Out(heap[i], Probe(heap[i])))
   /\ CSVWrite("%1$s", <<ToJson([unit |-> Pick(0..4), ops |-> ops'])>>, OutFile)
   /\ UNCHANGED heap
Init == heap = <<>> /\ ops = <<>>
Next == IF Len(heap) < Steps THEN Step /\ ops' = ops ELSE Finish
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ invariants of the algebra
Lo(v) == v[1]
Probed == ops # <<>>
Ordered == Probed => \A i \in 1..Len(ops) : \A j \in 1..Len(ops[i].pr) :
              LET t == ops[i].pr[j] IN t[ops[i].d + 1] <= t[ops[i].d + 2]
\* no shape is inside beyond its radius
InRadius == Probed => \A i \in 1..Len(ops) : \A j \in 1..Len(ops[i].pr) :
              LET t == ops[i].pr[j]  d == ops[i].d
                  l == IF d = 2 THEN Hyp2(t[1], t[2]) ELSE Hyp3(t[1], t[2], t[3]) IN
              t[d + 2] < -5 => l <= heap[i].r + 3
\* laws which relate different trees
Laws == Probed =>
   \A i \in Cands(3) : \A j \in Cands(3) : \A k \in 1..1 :
      LET p == SubSeq(ops[i].pr[k], 1, 3)  a == heap[i].n  b == heap[j].n
          e(op, x, y) == E3(Node(op, <<x, y>>, <<1>>, "", <<>>), p, 0) IN
      /\ e("un3", a, b) = e("un3", b, a)
      /\ e("in3", a, b) = e("in3", b, a)
      /\ e("un3", a, a) = E3(a, p, 0)
      /\ e("di3", a, Node("un3", <<b, a>>, <<>>, "", <<>>)) = IMax(e("di3", a, b), e("di3", a, a))
      /\ LET u == E3(Node("xf3", <<Node("xf3", <<a>>, <<>>, "", <<<<1, 10, -20, 30>>>>)>>, <<>>, "", <<<<1, -10, 20, -30>>>>), p, 0) IN u = E3(a, p, 0)
      /\ LET u == E3(Node("xf3", <<a>>, <<>>, "", <<<<6>>, <<2, 9000>>, <<2, -9000>>, <<6>>>>), p, 0) IN u = E3(a, p, 0)
===============================================================================
