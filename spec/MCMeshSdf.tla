------------------------------- MODULE MCMeshSdf -------------------------------
(* Laws of MeshSdf, for all sets of cells of a 2 x 2 x 2 lattice and some matrices.      *)
EXTENDS MeshSdf
VARIABLE w
Mats == { <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<2, 1, 0>>, <<-1, 1, 1>>>>, <<<<0, 1, 0>>, <<1, 1, 0>>, <<0, -1, 2>>>> }
None == [cells |-> {}]
All == { [g |-> <<<<0, 2, 8>>, <<-2, 0, 2>>, <<0, 4, 6>>>>, c |-> m, cells |-> s] : m \in Mats, s \in SUBSET ((1..2) \X (1..2) \X (1..2)) }
Init == w = None
Next == w = None /\ w' \in All
Spec == Init /\ [][Next]_w
Mesh(how) == UNION { { Divide(Corners(w, f), how)[i] : i \in 1..Len(Divide(Corners(w, f), how)) } : f \in Exposed(w) }
MeshClosed == w # None /\ Manifold(w) => \A how \in 0..2 : Closed(Mesh(how))
\* a solid and its complement meet in their faces: a closed mesh is the boundary of what Where says
Near == { At(w, v) : v \in {2} \X {1, 2} \X {2, 3} }
SignAndDistanceAgree ==
  w.cells # {} => LET F == Exposed(w) IN
    \A p \in { Add(q, <<a, b, c>>) : q \in Near, a \in {-1, 1}, b \in {0, 2}, c \in {-3, 0} } : (Where(w, p) = 0) = (Dist2(w, F, p) = 0)
\* stepping once over a face from outside leads inside
AcrossFaces == w # None => \A f \in Exposed(w) : \A s \in {-1, 1} :
     LET k == Corners(w, f)  m == Mid(k)  n == Cross(Sub(k[2], k[1]), Sub(k[4], k[1]))
     IN Where(w, Add(m, Mul(s * f[3], w.c[f[1]]))) = s /\ Dot(n, Mul(f[3], w.c[f[1]])) > 0
=================================================================================
