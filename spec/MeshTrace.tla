------------------------------ MODULE MeshTrace ------------------------------
(***************************************************************************)
(* Validates meshes rendered by the real code from fields known exactly on *)
(* the sampling lattice.                                                   *)
(*                                                                         *)
(* A mesh: vertices <<i, j, k, axis, t>> (the point a fraction t/10^6 of   *)
(* the way from corner (i,j,k) to the next corner along the axis; axis 0   *)
(* is the corner itself, -1 a point on no lattice edge), triangles as      *)
(* triples of vertex numbers, winding numbers <<i, j, k, w>> in thousandths *)
(* around corners which are not on the surface.                            *)
(***************************************************************************)
EXTENDS MeshField, TLC, Json, IOUtils, CSV, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cases == ndJsonDeserialize(IOEnv.CASES)
RejectFile == IOEnv.REJECT
VARIABLES l
Ev == Trace[l]
Shift(p, a) == [b \in 1..3 |-> IF a = b THEN p[b] + 1 ELSE p[b]]
P(v) == <<v[1], v[2], v[3]>>

\* -- against a field of the specification
OnSurface(f, v) ==
    CASE v[4] = 0 -> Val(f, P(v)) = 0
      [] v[4] \in 1..3 -> LET a == Val(f, P(v))  b == Val(f, Shift(P(v), v[4])) IN
                          /\ (a < 0) # (b < 0)
                          /\ Abs(v[5] * (a - b) - 1000000 * a) <= 3 * Abs(a - b)       \* t = a / (a - b)
      [] OTHER -> FALSE
Corners(n) == (0..n[1]) \X (0..n[2]) \X (0..n[3])
Complete(f, n, verts) ==
    LET have == TLCEval({ <<v[1], v[2], v[3], v[4]>> : v \in { verts[i] : i \in 1..Len(verts) } })
        val == TLCEval([i \in 0..n[1]+1 |-> [j \in 0..n[2]+1 |-> [k \in 0..n[3]+1 |-> Val(f, <<i, j, k>>)]]]) IN
    \A i \in 0..n[1], j \in 0..n[2], k \in 0..n[3] :
       /\ val[i][j][k] * val[i+1][j][k] < 0 => <<i, j, k, 1>> \in have
       /\ val[i][j][k] * val[i][j+1][k] < 0 => <<i, j, k, 2>> \in have
       /\ val[i][j][k] * val[i][j][k+1] < 0 => <<i, j, k, 3>> \in have
\* -- against values which the shape itself gave: sign of both ends, fraction
OnSurfaceReal(v, x) ==
    CASE v[4] = 0 -> x[1] = 0
      [] v[4] \in 1..3 -> x[1] * x[2] <= 0 /\ Abs(v[5] - x[3]) <= 3
      [] OTHER -> FALSE
CompleteReal(crossing, verts) ==
    LET have == TLCEval({ <<v[1], v[2], v[3], v[4]>> : v \in { verts[i] : i \in 1..Len(verts) } }) IN
    \A i \in 1..Len(crossing) : crossing[i] \in have

\* -- closed: every directed edge is matched by its reverse
DirEdges(tris) == [k \in 1..(3 * Len(tris)) |->
    LET t == tris[((k-1) \div 3) + 1]  s == ((k-1) % 3) + 1 IN <<t[s], t[(s % 3) + 1]>>]
Closed(tris) ==
    LET D == TLCEval(DirEdges(tris))
        S == TLCEval({ D[k] : k \in DOMAIN D }) IN
    IF Cardinality(S) = Len(D)
    THEN \A e \in S : <<e[2], e[1]>> \in S
    ELSE LET Cnt(e) == Cardinality({ k \in DOMAIN D : D[k] = e }) IN \A e \in S : Cnt(e) = Cnt(<<e[2], e[1]>>)
Separates(wind) == \A i \in 1..Len(wind) :
    LET w == wind[i] IN w[4] = (IF w[5] < 0 THEN 1000 ELSE 0)
SignOK(f, wind) == \A i \in 1..Len(wind) : (Val(f, P(wind[i])) < 0) = (wind[i][5] < 0)

Real == "vals" \in DOMAIN Ev
Fld == Cases[Ev.case].field
Holds(c) ==
    CASE c = "err" -> Ev.err = ""
      [] c = "vertices" -> IF Real THEN \A i \in 1..Len(Ev.verts) : OnSurfaceReal(Ev.verts[i], Ev.vals[i])
                           ELSE \A i \in 1..Len(Ev.verts) : OnSurface(Fld, Ev.verts[i])
      [] c = "complete" -> IF Real THEN CompleteReal(Ev.crossing, Ev.verts) ELSE Complete(Fld, Ev.n, Ev.verts)
      [] c = "closed" -> Closed(Ev.tris)
      [] c = "shared" -> Ev.split = <<>>      \* triangles around a vertex use the identical point
      [] c = "field" -> Real \/ SignOK(Fld, Ev.wind)
      [] c = "oriented" -> Separates(Ev.wind)
Which == IF IOEnv.WHICH = "C04" THEN {"err", "vertices", "complete", "field", "oriented"}
         ELSE {"err", "closed", "shared", "field", "oriented"}
Fails == { c \in Which : ~Holds(c) }
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET f == Fails IN f = {} \/ CSVWrite("%1$s", <<ToJson([line |-> l, case |-> Ev.case, fails |-> f])>>, RejectFile)
TSpec == TInit /\ [][TNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
