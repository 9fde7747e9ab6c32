------------------------------- MODULE Matrix -------------------------------
(* Transformation matrices as what they do to points. A point is <<x, y, z, w>>, the  *)
(* rational point (x, y, z) / w; nothing is ever rounded. A matrix is an expression:   *)
(* a leaf (named move), the product of two earlier ones, or the inverse of one.        *)
(* Leaves: [op, a]                                                                      *)
(*   tr <<x, y, z>>          sc <<x, y, z>> in quarters, powers of two with a sign      *)
(*   ro <<k1, k2, k3, n, c, s, h>>   about the axis k of length n by the angle with     *)
(*                           cosine c / h and sine s / h, right handed                   *)
(*   mxy mxz myz meq         mirrors                                                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC
\* rows of the linear part over the denominator, translation
Rows(m) == LET a == m.a IN
   CASE m.op = "tr" -> [r |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, t |-> <<a[1], a[2], a[3]>>, d |-> 1]
     [] m.op = "sc" -> [r |-> <<<<a[1], 0, 0>>, <<0, a[2], 0>>, <<0, 0, a[3]>>>>, t |-> <<0, 0, 0>>, d |-> 4]
     [] m.op = "ro" -> LET k1 == a[1] k2 == a[2] k3 == a[3] n == a[4] c == a[5] s == a[6] h == a[7]
                           q == h - c  z == c * n * n  u == s * n IN
          [r |-> <<<<z + q * k1 * k1, q * k1 * k2 - u * k3, q * k1 * k3 + u * k2>>,
                   <<q * k1 * k2 + u * k3, z + q * k2 * k2, q * k2 * k3 - u * k1>>,
                   <<q * k1 * k3 - u * k2, q * k2 * k3 + u * k1, z + q * k3 * k3>>>>, t |-> <<0, 0, 0>>, d |-> h * n * n]
     [] m.op = "mxy" -> [r |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>>>, t |-> <<0, 0, 0>>, d |-> 1]
     [] m.op = "mxz" -> [r |-> <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>>>, t |-> <<0, 0, 0>>, d |-> 1]
     [] m.op = "myz" -> [r |-> <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, t |-> <<0, 0, 0>>, d |-> 1]
     [] m.op = "meq" -> [r |-> <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, t |-> <<0, 0, 0>>, d |-> 1]
\* the move which undoes a leaf
Undo(m) == LET a == m.a IN
   CASE m.op = "tr" -> [op |-> "tr", a |-> <<-a[1], -a[2], -a[3]>>]
     [] m.op = "sc" -> [op |-> "sc", a |-> [k \in 1..3 |-> (IF a[k] < 0 THEN -1 ELSE 1) * (16 \div (IF a[k] < 0 THEN -a[k] ELSE a[k]))]]
     [] m.op = "ro" -> [op |-> "ro", a |-> <<a[1], a[2], a[3], a[4], a[5], -a[6], a[7]>>]
     [] OTHER -> m
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Step(R, p) == <<Dot(R.r[1], p) + R.t[1] * R.d * p[4], Dot(R.r[2], p) + R.t[2] * R.d * p[4], Dot(R.r[3], p) + R.t[3] * R.d * p[4], R.d * p[4]>>
\* the leaves met by a point, in order, as <<leaf index, inverted>>: right to left in a product
RECURSIVE Path(_, _, _)
Path(heap, i, inv) == LET e == heap[i] IN
   CASE e.op = "mul" -> IF inv THEN Path(heap, e.in[1], TRUE) \o Path(heap, e.in[2], TRUE)
                        ELSE Path(heap, e.in[2], FALSE) \o Path(heap, e.in[1], FALSE)
     [] e.op = "inv" -> Path(heap, e.in[1], ~inv)
     [] OTHER -> <<<<i, inv>>>>
RECURSIVE Follow(_, _, _)
Follow(heap, path, p) == IF path = <<>> THEN p ELSE
   LET s == Head(path)  R == TLCEval(Rows(IF s[2] THEN Undo(heap[s[1]]) ELSE heap[s[1]])) IN
   Follow(heap, Tail(path), TLCEval(Step(R, p)))
Act(heap, i, p) == Follow(heap, TLCEval(Path(heap, i, FALSE)), p)
\* determinant as <<sign, power of two>>
Log2(x) == CASE x = 1 -> -2 [] x = 2 -> -1 [] x = 4 -> 0 [] x = 8 -> 1 [] x = 16 -> 2
Sg(x) == IF x < 0 THEN -1 ELSE 1
MAbs(x) == IF x < 0 THEN -x ELSE x
LeafDet(m, flat) == CASE m.op = "sc" -> IF flat THEN <<Sg(m.a[1]) * Sg(m.a[2]), Log2(MAbs(m.a[1])) + Log2(MAbs(m.a[2]))>>
                     ELSE <<Sg(m.a[1]) * Sg(m.a[2]) * Sg(m.a[3]), Log2(MAbs(m.a[1])) + Log2(MAbs(m.a[2])) + Log2(MAbs(m.a[3]))>>
                 [] m.op \in {"mxy", "mxz", "myz", "meq"} -> <<-1, 0>> [] OTHER -> <<1, 0>>
Det(heap, i, flat) == FoldLeft(LAMBDA acc, s : LET d == LeafDet(heap[s[1]], flat) IN
                               <<acc[1] * d[1], acc[2] + (IF s[2] THEN -d[2] ELSE d[2])>>, <<1, 0>>, Path(heap, i, FALSE))
\* the smallest box around the image of the box lo..hi: <<min, max, w>>
Corner(lo, hi, h) == <<IF h % 2 = 0 THEN lo[1] ELSE hi[1], IF (h \div 2) % 2 = 0 THEN lo[2] ELSE hi[2], IF h \div 4 = 0 THEN lo[3] ELSE hi[3], 1>>
BoxOf(heap, i, lo, hi) ==
   LET im == TLCEval([h \in 0..7 |-> Act(heap, i, Corner(lo, hi, h))])
       Mn(k) == CHOOSE v \in {im[h][k] : h \in 0..7} : \A h \in 0..7 : v <= im[h][k]
       Mx(k) == CHOOSE v \in {im[h][k] : h \in 0..7} : \A h \in 0..7 : v >= im[h][k] IN
   <<Mn(1), Mn(2), Mn(3), Mx(1), Mx(2), Mx(3), im[0][4]>>
=============================================================================
