---------------------------------- MODULE Bcc ----------------------------------
(* The body centred lattice of a box of cells and the tetrahedral mesh of a shape in it.  *)
(* Cells are two units wide: corners have even coordinates, centres odd ones. Around the  *)
(* face which two cells share, the two centres span a tetrahedron with each of its edges.  *)
(* The mesh of a shape are the tetrahedra with a node inside it.                           *)
EXTENDS Integers, Sequences, FiniteSets
Step(d, n) == CASE d = 1 -> <<n, 0, 0>> [] d = 2 -> <<0, n, 0>> [] OTHER -> <<0, 0, n>>
Add(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Centres(D) == { <<2 * i + 1, 2 * j + 1, 2 * k + 1>> : i \in 0..D[1] - 1, j \in 0..D[2] - 1, k \in 0..D[3] - 1 }
Corners(D) == { <<2 * i, 2 * j, 2 * k>> : i \in 0..D[1], j \in 0..D[2], k \in 0..D[3] }
Nodes(D) == Centres(D) \cup Corners(D)
\* the four tetrahedra between the cell at c and the next one along axis d
Wedge(c, d) ==
  LET e == IF d = 1 THEN 2 ELSE 1   f == IF d = 3 THEN 2 ELSE 3
      m == Add(c, Step(d, 1))
      q(a, b) == Add(m, Add(Step(e, a), Step(f, b)))
  IN { {c, Add(c, Step(d, 2)), q(1, 1), q(1, -1)}, {c, Add(c, Step(d, 2)), q(1, 1), q(-1, 1)},
       {c, Add(c, Step(d, 2)), q(-1, -1), q(1, -1)}, {c, Add(c, Step(d, 2)), q(-1, -1), q(-1, 1)} }
Tets(D) == UNION { UNION { Wedge(c, d) : d \in { x \in 1..3 : Add(c, Step(x, 2)) \in Centres(D) } } : c \in Centres(D) }
\* only the wedges near nodes of In are looked at: a tetrahedron with a node n has its centres within 2 of n
Around(D, n) == UNION { UNION { Wedge(c, d) : d \in { x \in 1..3 : Add(c, Step(x, 2)) \in Centres(D) } }
                        : c \in Centres(D) \cap { Add(n, <<i, j, k>>) : i \in -2..2, j \in -2..2, k \in -2..2 } }
Kept(D, In) == UNION { { t \in Around(D, n) : n \in t } : n \in In }
Hull(D, n) == \E d \in 1..3 : n[d] = 0 \/ n[d] = 2 * D[d]
Rim(D, n) == \E d \in 1..3 : n[d] \in {0, 1} \/ n[d] \in {2 * D[d] - 1, 2 * D[d]}
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Volume6(a, b, c, d) == Det3(Sub(b, a), Sub(c, a), Sub(d, a))
\* Tetrahedra as tuples of one orientation conform when no face is used twice from one side.
\* The faces of t, turned so that its smallest node comes first, seen from within:
First(f) == IF f[1] < f[2] /\ f[1] < f[3] THEN f ELSE IF f[2] < f[3] THEN <<f[2], f[3], f[1]>> ELSE <<f[3], f[1], f[2]>>
FacesOf(t) == { First(<<t[2], t[3], t[4]>>), First(<<t[1], t[4], t[3]>>), First(<<t[1], t[2], t[4]>>), First(<<t[1], t[3], t[2]>>) }
Conforms(T) == Cardinality(UNION { FacesOf(T[i]) : i \in 1..Len(T) }) = 4 * Len(T)
================================================================================
