----------------------------- MODULE OrientTrace -----------------------------
(* Judges recorded rotations r (in ten-thousandths, by rows): r is a rotation and       *)
(* takes a to the direction of b, about the axis perpendicular to both if there is one. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
RejectFile == IOEnv.REJECT
S == 10000
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
A(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == A(x - y) <= t
Len1(v) == A(v[1]) + A(v[2]) + A(v[3])
IsRot(r) == /\ \A i, j \in 1..3 : Near(Dot(r[i], r[j]), IF i = j THEN S * S ELSE 0, 8 * S)
            /\ LET c == Cross(r[1], r[2]) IN \A k \in 1..3 : Near(c[k] \div S, r[3][k], 12)
Img(r, v) == <<Dot(r[1], v), Dot(r[2], v), Dot(r[3], v)>>
Along(r, a, f) == LET u == Img(r, a)  c == Cross(u, f)  t == 2 * Len1(a) * Len1(f) * 3 IN
                  /\ \A k \in 1..3 : A(c[k]) <= t * (IF Len1(f) >= 900 THEN 20 ELSE 3)
                  /\ Dot(u, f) > 0
AxisFixed(r, a, f) == LET n == Cross(a, f)  u == Img(r, n) IN
                  Len1(f) >= 900 \/ \A k \in 1..3 : Near(u[k], S * n[k], 3 * Len1(n))
Good(e) == e.ok /\ IsRot(e.r) /\ Along(e.r, e.a, e.f) /\ AxisFixed(e.r, e.a, e.f)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Good(Trace[l]) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(Trace[l])>>, RejectFile)
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
