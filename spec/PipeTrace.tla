------------------------------- MODULE PipeTrace -------------------------------
(* Judges parts which came back from the pipeline shape -> mesh -> file -> shape. h is the *)
(* diagonal of a cell of the meshes (rounded up), of both meshes if it was meshed twice. A *)
(* probe is <<x, y, z, lo, hi, m>>: the specification's interval for the shape and the     *)
(* value of the part at the point. What follows from the shape being 1-Lipschitz:          *)
(*  - the surface is within h of the shape's surface, so away from it both agree on the    *)
(*    side, and the part's value is not smaller than the shape's by more than h;           *)
(*  - the surface is crossed between any point inside and any point outside, which bounds  *)
(*    the part's values from above. (Sharp tips may be lost, so there is no other bound.)   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
RejectFile == IOEnv.REJECT
A(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
Sure(q, h) == q[4] > h \/ q[5] < -h
Inside(q, h) == q[5] < -h
Outside(q, h) == q[4] > h
\* |m1 - m2| <= distance + t, in units small enough not to overflow
Steep(a, b, t) == LET d == A(a[6] - b[6]) - t IN
   d > 0 /\ (d > 20000 \/ (A(a[1] - b[1]) < 20000 /\ A(a[2] - b[2]) < 20000 /\ A(a[3] - b[3]) < 20000
             /\ Sq(d) > Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])))
Verdict(r) ==
  LET h == r.h  n == Len(r.pr)  S == { i \in 1..n : Sure(r.pr[i], h) } IN
  CASE r.empty -> IF \E i \in 1..n : Inside(r.pr[i], h) THEN "nothing is left of the shape" ELSE "ok"
    [] \E i \in 1..n : ~r.fin[i] -> "a value is not finite"
    [] \E i \in S : Inside(r.pr[i], h) /\ r.pr[i][6] > 0 -> "a point deep inside the shape is outside the part"
    [] \E i \in S : Outside(r.pr[i], h) /\ r.pr[i][6] < 0 -> "a point well outside the shape is inside the part"
    [] \E i \in S : Outside(r.pr[i], h) /\ r.pr[i][6] < r.pr[i][4] - h - 2 -> "the part is closer than the shape allows"
    [] \E i \in S : Inside(r.pr[i], h) /\ r.pr[i][6] > r.pr[i][5] + h + 2 -> "the part is thinner than the shape allows"
    [] \E i \in S : \E j \in S : i < j /\ Steep(r.pr[i], r.pr[j], 3) -> "the part has two values which differ by more than the distance of their points"
    [] OTHER -> "ok"
VARIABLES k
Init == k = 1 /\ TLCSet(1, 1)
Next == /\ k <= Len(Trace)
        /\ \E v \in {Verdict(Trace[k])} : IF v = "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([case |-> Trace[k].case, what |-> v])>>, RejectFile)
        /\ k' = k + 1 /\ TLCSet(1, k + 1)
Spec == Init /\ [][Next]_k
Consumed == TLCGet(1) = Len(Trace) + 1
===============================================================================
