-------------------------------- MODULE Blend --------------------------------
(* The blending functions a union, difference, intersection or pattern may be given, *)
(* as functions from intervals of thousandths to intervals of thousandths, and the    *)
(* value of a composite as the fold of its function over its members.                 *)
(* A function is [f, n, k]: kind, degree, radius (width for the exponential one).      *)
EXTENDS Integers, Sequences, SequencesExt, TLC
BAbs(x) == IF x < 0 THEN -x ELSE x
BMin(a, b) == IF a < b THEN a ELSE b
BMax(a, b) == IF a < b THEN b ELSE a
CeilDiv(a, b) == -((-a) \div b)
BNewton(n, x) == (x + n \div x) \div 2
BSqrt(n) == IF n = 0 THEN 0 ELSE
   LET x0 == IF n < 64 THEN 6 ELSE IF n < 1024 THEN 20 ELSE IF n < 16384 THEN 80 ELSE IF n < 262144 THEN 300
             ELSE IF n < 4194304 THEN 1200 ELSE IF n < 67108864 THEN 5000 ELSE IF n < 400000000 THEN 14000 ELSE 32000
       x1 == BNewton(n, x0)  x2 == BNewton(n, x1)  x3 == BNewton(n, x2)  x4 == BNewton(n, x3) IN BNewton(n, x4)
BHyp(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE BSqrt(x * x + y * y)
\* interval of the hypotenuse of two non-negative lengths
HypIv(x, y) == IF x = 0 \/ y = 0 THEN <<x + y, x + y>>
               ELSE IF BMax(x, y) <= 30000 THEN LET h == BHyp(x, y) IN <<h - 1, h + 1>>
               ELSE IF BMax(x, y) <= 240000 THEN LET h == BHyp(x \div 8, y \div 8) IN <<8 * h - 16, 8 * h + 32>>
               ELSE LET h == BHyp(x \div 100, y \div 100) IN <<100 * h - 200, 100 * h + 400>>

\* the amount a polynomial of degree n and radius k removes when its arguments differ by g
RECURSIVE PowLo(_, _, _)
PowLo(d, k, n) == IF n = 1 THEN d ELSE (PowLo(d, k, n - 1) * d) \div k
RECURSIVE PowHi(_, _, _)
PowHi(d, k, n) == IF n = 1 THEN d ELSE CeilDiv(PowHi(d, k, n - 1) * d, k)
Amount(n, k, g) == IF n < 1 THEN Assert(FALSE, <<"degree", n>>) ELSE LET d == BMax(k - g, 0) IN <<PowLo(d, k, n) \div (2 * n), CeilDiv(PowHi(d, k, n), 2 * n)>>
\* x / sqrt 2, from below
Half(x) == (x \div 1000) * 707 + ((x % 1000) * 707) \div 1000 + ((x \div 100) * 1068) \div 100000

\* minima of two exact values
PolyMin(n, k, a, b) == LET m == BMin(a, b)  t == Amount(n, k, BAbs(a - b)) IN
   IF n = 1 THEN <<m, m>>
   ELSE IF n = 0 THEN LET h == Half(a + b - k) IN <<BMin(m, h - 2), BMin(m, h + 3)>>
   ELSE <<m - t[2], m - t[1]>>
RoundMin(k, a, b) == LET h == HypIv(BMax(k - a, 0), BMax(k - b, 0))  m == BMax(k, BMin(a, b)) IN <<m - h[2], m - h[1]>>
\* -w log(exp(-a/w) + exp(-b/w))
ExpMin(w, a, b) == LET m == BMin(a, b)  g == BAbs(a - b) IN
   IF g = 0 THEN <<m - (w * 6932) \div 10000 - 1, m - (w * 6931) \div 10000>>
   ELSE IF g >= 7 * w THEN <<m - w \div 1000 - 1, m>>
   ELSE <<m - (w * 6932) \div 10000 - 1, m>>
FMin(fn, a, b) == CASE fn.f = "std" -> LET m == BMin(a, b) IN <<m, m>>
                    [] fn.f = "poly" -> PolyMin(fn.n, fn.k, a, b)
                    [] fn.f = "round" -> RoundMin(fn.k, a, b)
                    [] fn.f = "exp" -> ExpMin(fn.k, a, b)
\* the maximum version mirrors the polynomial minimum; degree 1 is only known to its envelope
FMax(fn, a, b) == IF fn.f = "std" THEN LET m == BMax(a, b) IN <<m, m>>
                  ELSE LET m == BMax(a, b)  t == Amount(fn.n, fn.k, BAbs(a - b)) IN
                       IF fn.n = 1 THEN <<m, m + t[2]>> ELSE <<m + t[1], m + t[2]>>
\* all are monotone in both arguments, so intervals are folded end by end
IFMin(fn, u0, v0) == LET u == TLCEval(u0)  v == TLCEval(v0) IN <<FMin(fn, u[1], v[1])[1], FMin(fn, u[2], v[2])[2]>>
IFMax(fn, u0, v0) == LET u == TLCEval(u0)  v == TLCEval(v0) IN <<FMax(fn, u[1], v[1])[1], FMax(fn, u[2], v[2])[2]>>
FoldMin(fn, q0) == LET q == TLCEval(q0) IN FoldLeft(LAMBDA acc, x : TLCEval(IFMin(fn, acc, x)), Head(q), Tail(q))
INegB(u0) == LET u == TLCEval(u0) IN <<-u[2], -u[1]>>

\* ---------------------------------------------------------------- composites
(* heap entry: [op, in, a, fn]. A leaf is the linear function a[1] x + a[2] y + a[3] z + a[4]; *)
(* arrays have counts a[1..3] and steps a[4..6], rotated unions a[1] copies by a[2] quarter    *)
(* turns. Children are earlier entries, with whatever function those have now.                 *)
QRot(p, q) == LET m == q % 4 IN
   CASE m = 0 -> p [] m = 1 -> <<-p[2], p[1], p[3]>> [] m = 2 -> <<-p[1], -p[2], p[3]>> [] OTHER -> <<p[2], -p[1], p[3]>>
Grid(a) == [h \in 1..(a[1] * a[2] * a[3]) |-> <<(h - 1) \div (a[2] * a[3]), ((h - 1) \div a[3]) % a[2], (h - 1) % a[3]>>]
RECURSIVE Val(_, _, _)
Val(heap, i, p) ==
   LET e == heap[i]  a == e.a
       C(j, q) == Val(heap, e.in[j], q) IN
   CASE e.op = "leaf" -> LET v == a[1] * p[1] + a[2] * p[2] + a[3] * p[3] + a[4] IN <<v, v>>
     [] e.op = "union" -> FoldMin(e.fn, [j \in 1..Len(e.in) |-> C(j, p)])
     [] e.op = "diff" -> IFMax(e.fn, C(1, p), INegB(C(2, p)))
     [] e.op = "inter" -> IFMax(e.fn, C(1, p), C(2, p))
     [] e.op = "array" -> LET g == TLCEval(Grid(a)) IN
          FoldMin(e.fn, [h \in 1..Len(g) |-> C(1, <<p[1] - g[h][1] * a[4], p[2] - g[h][2] * a[5], p[3] - g[h][3] * a[6]>>)])
     [] e.op = "rotu" -> FoldMin(e.fn, [h \in 1..a[1] |-> C(1, QRot(p, -(h - 1) * a[2]))])
Mins == {"union", "array", "rotu"}
Maxs == {"diff", "inter"}
Std == [f |-> "std", n |-> 0, k |-> 1]
=============================================================================
