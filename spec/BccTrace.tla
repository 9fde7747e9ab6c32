------------------------------- MODULE BccTrace -------------------------------
(* Judges recorded tetrahedral meshes against the lattice mesh and the laws of meshes.    *)
EXTENDS Bcc, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
RejectFile == IOEnv.REJECT
VARIABLES s, k
Used(r) == { r.tets[i][j] : i \in 1..Len(r.tets), j \in 1..4 }
OnLattice(r) ==
  LET P(n) == r.at[n + 1]
      got == { {P(r.tets[i][1]), P(r.tets[i][2]), P(r.tets[i][3]), P(r.tets[i][4])} : i \in 1..Len(r.tets) }
      want == Kept(r.D, { r.neg[i] : i \in 1..Len(r.neg) })
  IN IF Cardinality({ P(n) : n \in Used(r) }) # Cardinality(Used(r)) THEN "two nodes are at the same place"
     ELSE IF got \ want # {} THEN "there is a tetrahedron which has no node inside or is not of the lattice"
     ELSE IF want \ got # {} THEN "a tetrahedron with a node inside is missing"
     ELSE "ok"
Verdict(r) ==
  CASE r.nodes = 0 /\ Len(r.tets) > 0 -> "there are no nodes"
    [] \E i \in 1..Len(r.tets) : \E j \in 1..4 : r.tets[i][j] \notin 0..r.nodes - 1 -> "a tetrahedron refers to a node which does not exist"
    [] r.infinite > 0 -> "a node is not finite"
    [] \E i \in 1..Len(r.tets) : Cardinality({ r.tets[i][j] : j \in 1..4 }) # 4 -> "a tetrahedron has the same node twice"
    [] Cardinality({ { r.tets[i][j] : j \in 1..4 } : i \in 1..Len(r.tets) }) # Len(r.tets) -> "a tetrahedron is listed twice"
    [] \E i \in 1..Len(r.tets) : r.side[i] = 0 -> "a tetrahedron is flat"
    [] \E i \in 1..Len(r.tets) : r.side[i] # r.side[1] -> "a tetrahedron is inside out"
    [] ~Conforms(r.tets) -> "a face has two tetrahedra on one side"
    [] r.k = "lattice" -> IF OnLattice(r) = "ok" THEN "ok" ELSE OnLattice(r)
    [] r.far > 0 -> "a node of a tetrahedron is further from the shape than the resolution"
    [] \E i \in 1..Len(r.pr) : r.pr[i][3] = 1 /\ r.pr[i][2] = 0 -> "a point deep inside is in no tetrahedron"
    [] \E i \in 1..Len(r.pr) : r.pr[i][3] = 0 /\ r.pr[i][2] > 0 -> "a point far outside is in a tetrahedron"
    [] \E i \in 1..Len(r.pr) : r.pr[i][1] > 1 -> "a point is in two tetrahedra"
    [] OTHER -> "ok"
Init == s = 0 /\ k = 1 /\ TLCSet(1, 1)
Next == /\ k <= Len(Trace)
        /\ \E v \in {Verdict(Trace[k])} : IF v = "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([case |-> Trace[k].case, what |-> v])>>, RejectFile)
        /\ k' = k + 1 /\ TLCSet(1, k + 1) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, k>>
Consumed == TLCGet(1) = Len(Trace) + 1
===============================================================================
