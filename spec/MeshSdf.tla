-------------------------------- MODULE MeshSdf --------------------------------
(* The solid bounded by a mesh. A solid is a set of cells of a rectilinear lattice with   *)
(* planes g[1], g[2], g[3], mapped by an integer matrix with columns c[1], c[2], c[3] and *)
(* non-zero determinant, so that its edges have any angle. Its mesh is made of two or     *)
(* four triangles for each cell face with the solid on one side only. The sign of a point *)
(* comes from the cells alone, the distance from the faces.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Axes == 1..3
N(w, d) == Len(w.g[d]) - 1                 \* cells along axis d
Cells(w) == (1..N(w, 1)) \X (1..N(w, 2)) \X (1..N(w, 3))
Filled(w, q) == q \in w.cells
Nx(d) == (d % 3) + 1
Up(q, d, n) == [q EXCEPT ![d] = @ + n]
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(w) == Dot(w.c[1], Cross(w.c[2], w.c[3]))
\* lattice point v = <<i, j, k>> (plane numbers) in space
At(w, v) == Add(Mul(w.g[1][v[1]], w.c[1]), Add(Mul(w.g[2][v[2]], w.c[2]), Mul(w.g[3][v[3]], w.c[3])))

---------------------------------------------------------------------------------
\* A set of cells bounds a manifold iff around every lattice point both the filled and the
\* empty cells hang together through faces.
Block(v) == { <<v[1] - a, v[2] - b, v[3] - c>> : a \in 0..1, b \in 0..1, c \in 0..1 }
Touch(p, q) == \E d \in Axes : p # q /\ (p = Up(q, d, 1) \/ q = Up(p, d, 1))
RECURSIVE Spread(_, _)
Spread(R, S) == LET M == R \cup { q \in S : \E p \in R : Touch(p, q) } IN IF M = R THEN R ELSE Spread(M, S)
Joined(S) == S = {} \/ Spread({CHOOSE q \in S : TRUE}, S) = S
Points(w) == (1..Len(w.g[1])) \X (1..Len(w.g[2])) \X (1..Len(w.g[3]))
Manifold(w) == \A v \in Points(w) : LET f == { q \in Block(v) : Filled(w, q) } IN Joined(f) /\ Joined(Block(v) \ f)

---------------------------------------------------------------------------------
\* Faces: <<d, v, s>> is perpendicular to axis d, its lowest corner the lattice point v, its
\* outside towards axis d if s = 1, against it if s = -1.
Faces(w) == { <<d, q, -1>> : d \in Axes, q \in w.cells } \cup { <<d, Up(q, d, 1), 1>> : d \in Axes, q \in w.cells }
Exposed(w) == { f \in Faces(w) : IF f[3] = 1 THEN ~Filled(w, f[2]) ELSE ~Filled(w, Up(f[2], f[1], -1)) }
\* the corners of a face, counter-clockwise seen from outside
Corners(w, f) == LET d == f[1]  v == f[2]  e1 == Nx(d)  e2 == Nx(e1)
                     a == At(w, v)  b == At(w, Up(v, e1, 1))  c == At(w, Up(Up(v, e1, 1), e2, 1))  e == At(w, Up(v, e2, 1))
                 IN IF (f[3] = 1) = (Det(w) > 0) THEN <<a, b, c, e>> ELSE <<a, e, c, b>>
Mid(k) == LET s == Add(k[1], k[3]) IN <<s[1] \div 2, s[2] \div 2, s[3] \div 2>>
\* the ways to divide a face: along one or the other diagonal, or into four around its middle
Divide(k, how) == CASE how = 0 -> <<<<k[1], k[2], k[3]>>, <<k[1], k[3], k[4]>>>>
                    [] how = 1 -> <<<<k[2], k[3], k[4]>>, <<k[2], k[4], k[1]>>>>
                    [] how = 2 -> LET m == Mid(k) IN <<<<k[1], k[2], m>>, <<k[2], k[3], m>>, <<k[3], k[4], m>>, <<k[4], k[1], m>>>>
\* in a closed mesh every directed edge occurs once, and once in the other direction
Directed(T) == UNION { { <<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>> } : t \in T }
Closed(T) == /\ Cardinality(Directed(T)) = 3 * Cardinality(T)
             /\ \A e \in Directed(T) : <<e[2], e[1]>> \in Directed(T)

---------------------------------------------------------------------------------
\* Where a point is: 1 outside, -1 inside, 0 on the surface. Its lattice coordinates times the
\* determinant are compared with the planes.
Pre(w, p) == LET k == IF Det(w) > 0 THEN 1 ELSE -1
             IN <<k * Dot(p, Cross(w.c[2], w.c[3])), k * Dot(p, Cross(w.c[3], w.c[1])), k * Dot(p, Cross(w.c[1], w.c[2]))>>
AbsDet(w) == IF Det(w) > 0 THEN Det(w) ELSE -Det(w)
\* the cells (0 and N + 1 included) along axis d whose closed extent has the coordinate x
Span(w, d, x) == { i \in 0..N(w, d) + 1 : /\ i > 0 => AbsDet(w) * w.g[d][i] <= x
                                          /\ i <= N(w, d) => x <= AbsDet(w) * w.g[d][i + 1] }
Where(w, p) == LET x == Pre(w, p)
                   S == Span(w, 1, x[1]) \X Span(w, 2, x[2]) \X Span(w, 3, x[3])
               IN IF S \subseteq w.cells THEN -1 ELSE IF S \cap w.cells = {} THEN 1 ELSE 0

---------------------------------------------------------------------------------
\* Thousandths of a / b, rounded down; neither product leaves 32 bits.
Milli(a, b) == (a \div b) * 1000 + (((a % b) * 1000) \div b)
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* squared distance to the segment from a along n times e
SegD(p, a, e, n) == LET v == Sub(p, a)  t == Dot(v, e)  e2 == Dot(e, e)
                    IN IF t <= 0 THEN 1000 * Dot(v, v)
                       ELSE IF t >= n * e2 THEN LET u == Sub(v, Mul(n, e)) IN 1000 * Dot(u, u)
                       ELSE Milli(Dot(v, v) * e2 - t * t, e2)
\* squared distance to a face, its rim included
FaceD(w, f, p) ==
  LET d == f[1]  v == f[2]  i1 == Nx(d)  i2 == Nx(i1)
      e1 == w.c[i1]  e2 == w.c[i2]  s1 == w.g[i1][v[i1] + 1] - w.g[i1][v[i1]]  s2 == w.g[i2][v[i2] + 1] - w.g[i2][v[i2]]
      a == At(w, v)  u == Sub(p, a)  nn == Cross(e1, e2)  n2 == Dot(nn, nn)
      x2 == Dot(Cross(nn, e1), u)  x1 == Dot(Cross(e2, nn), u)
  IN IF x1 >= 0 /\ x1 <= s1 * n2 /\ x2 >= 0 /\ x2 <= s2 * n2
     THEN LET h == Dot(nn, u) IN Milli(h * h, n2)
     ELSE Min2(Min2(SegD(p, a, e1, s1), SegD(p, a, e2, s2)),
               Min2(SegD(p, Add(a, Mul(s2, e2)), e1, s1), SegD(p, Add(a, Mul(s1, e1)), e2, s2)))
\* thousandths of the squared distance of p to the surface, rounded down
Dist2(w, F, p) == MinOf({ FaceD(w, f, p) : f \in F })
=================================================================================
