------------------------------ MODULE MeshField ------------------------------
(* Fields known exactly on the sampling lattice. Coordinates are cells (corners of  *)
(* cells are integer points); values are in quarters of half a cell, for rt3 fields *)
(* divided by the square root of three. Every one of them is 1-Lipschitz for the     *)
(* Euclidean distance, hence never overestimates the distance to the surface, and    *)
(* the oct and plane fields reach the bound along the cell diagonals.                *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Hash(seed, i, j, k) ==
    LET h == (seed*7 + i*31 + j*57 + k*83 + i*j*5 + j*k*11 + i*k*17) % 1009
        g == (h*h + 3*h + seed) % 1013
        m == 1 + (g % 3) IN IF (g \div 3) % 2 = 0 THEN -m ELSE m
RECURSIVE Val(_, _)
\* value at corner p = <<i, j, k>>
Val(f, p) ==
    CASE f.op = "box" -> MaxI(MaxI(Abs(8*p[1] - f.c[1]) - f.r[1], Abs(8*p[2] - f.c[2]) - f.r[2]), Abs(8*p[3] - f.c[3]) - f.r[3])
      [] f.op = "oct" -> Abs(8*p[1] - f.c[1]) + Abs(8*p[2] - f.c[2]) + Abs(8*p[3] - f.c[3]) - f.d
      [] f.op = "plane" -> 8 * (p[1]*f.r[1] + p[2]*f.r[2] + p[3]*f.r[3]) - f.d
      [] f.op = "min" -> MinI(Val(f.kids[1], p), Val(f.kids[2], p))
      [] f.op = "max" -> MaxI(Val(f.kids[1], p), Val(f.kids[2], p))
      [] f.op = "diff" -> MaxI(Val(f.kids[1], p), -Val(f.kids[2], p))
      [] f.op = "hash" -> IF \E a \in 1..3 : p[a] < 1 \/ p[a] > f.n[a] - 1 THEN 1 ELSE Hash(f.d, p[1], p[2], p[3])
=============================================================================
