------------------------------- MODULE MeshGen -------------------------------
(* Models for MeshTrace: boxes, octahedra, half spaces cut to a box, and their      *)
(* unions, intersections and differences, at random positions in quarters of half a *)
(* cell, kept within the inner cells of the bounds; fields with a pseudo random     *)
(* sign at every corner (all corner patterns); shapes of the library.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, FiniteSets
OutFile == IOEnv.OUT
N == atoi(IOEnv.NSIM)
Big == atoi(IOEnv.BIG)
R(S) == RandomElement(S)
Seqs(S, k) == TLCEval([i \in 1..k |-> RandomElement(S)])
Max3(d) == LET m == IF d[1] > d[2] THEN d[1] ELSE d[2] IN IF m > d[3] THEN m ELSE d[3]
CellsOf(cells, d) == [a \in 1..3 |-> (cells * d[a]) \div Max3(d)]
Fix(cells, d) == [a \in 1..3 |-> IF CellsOf(cells, d)[a] < 3 THEN Max3(d) ELSE d[a]]
MinI(a, b) == IF a < b THEN a ELSE b
\* a box within corners 1 .. n-1 (one corner is 8 quarters)
BoxIn(n) ==
    LET c == TLCEval([a \in 1..3 |-> R((2*n[a] + 6)..(6*n[a] - 6))])
        r == TLCEval([a \in 1..3 |-> LET m == MinI(c[a] - 8, 8*(n[a]-1) - c[a]) IN R((m - m \div 3)..m)])
        z == R(1..8) IN            \* mostly off the corners, sometimes through them
    [op |-> "box", c |-> IF z = 1 THEN [a \in 1..3 |-> 8 * (n[a] \div 2)] ELSE c,
     r |-> IF z = 1 THEN [a \in 1..3 |-> 8 * R(1..MinI(n[a] \div 2, n[a] - 1 - n[a] \div 2))] ELSE r, d |-> 0]
\* touching corners of cells, where skipping empty space is at its limit
OctTouch(n) ==
    LET c == TLCEval([a \in 1..3 |-> 4 * (R((3*n[a] + 3)..(5*n[a] - 3)) \div 4)])
        m(a) == MinI(c[a] - 8, 8*(n[a]-1) - c[a])
        k == MinI(m(1), MinI(m(2), m(3)))
    IN [op |-> "oct", c |-> c, d |-> 4 * R((k \div 8)..(k \div 4))]
OctIn(n) ==
    LET c == TLCEval([a \in 1..3 |-> R((3*n[a] + 3)..(5*n[a] - 3))])
        m(a) == MinI(c[a] - 8, 8*(n[a]-1) - c[a]) IN
    IF R(1..3) = 1 THEN OctTouch(n) ELSE
    [op |-> "oct", c |-> c, d |-> LET k == MinI(m(1), MinI(m(2), m(3))) IN R((k - k \div 3)..k)]
\* a half space with a corner direction, through the middle of the bounds
PlaneIn(n) ==
    LET s == Seqs({-1, 1}, 3) IN
    [op |-> "plane", r |-> s, d |-> 4 * (s[1]*n[1] + s[2]*n[2] + s[3]*n[3]) + R(-12..12)]
Bin(op, a, b) == [op |-> op, kids |-> <<a, b>>]
Full(n) == [op |-> "box", c |-> [a \in 1..3 |-> 4 * n[a]], r |-> [a \in 1..3 |-> 4 * n[a] - 8], d |-> 0]
FieldIn(k, n) ==
    CASE k = 1 -> BoxIn(n)
      [] k = 2 -> OctIn(n)
      [] k = 3 -> Bin("max", Full(n), PlaneIn(n))
      [] k = 4 -> Bin("min", BoxIn(n), BoxIn(n))
      [] k = 5 -> Bin("min", OctIn(n), OctIn(n))
      [] k = 6 -> Bin("diff", Bin("min", BoxIn(n), OctIn(n)), OctIn(n))
      [] k = 7 -> Bin("max", Bin("max", Full(n), PlaneIn(n)), PlaneIn(n))
      [] k = 8 -> Bin("min", Bin("min", OctIn(n), OctIn(n)), Bin("max", BoxIn(n), PlaneIn(n)))
      [] k \in {10, 11, 12, 13} -> OctTouch(n)
      [] OTHER -> [op |-> "hash", d |-> R(1..900), n |-> n]
Case(i, k, cells, d0) ==
    LET d == TLCEval(Fix(cells, d0))  n == TLCEval(CellsOf(cells, d)) IN
    [case |-> i, dims |-> d, off |-> Seqs(-3..3, 3), unit |-> R({1, 8, 13, 80, -12, -20, 30000}), cells |-> cells, rt3 |-> k \in {2, 3, 5, 6, 7, 8, 10, 11, 12, 13},
     shape |-> "", workers |-> R({0, 0, 3}), field |-> FieldIn(k, n)]
Names == <<"sphere", "box", "cyl", "cone", "capsule", "csg", "tilt">>
RealCase(i, s, cells) ==
    [case |-> i, dims |-> <<1,1,1>>, off |-> <<0,0,0>>, unit |-> 8, cells |-> cells, rt3 |-> FALSE, shape |-> s, workers |-> 0,
     field |-> [op |-> "none"]]
\* long thin bounds, six cells across: a thick and a thin rod end to end
LongCase(i, far, len, ax) ==
    LET w == 6  d == [a \in 1..3 |-> IF a = ax THEN len ELSE 1]  n == TLCEval([a \in 1..3 |-> w * d[a]])
        h == n[ax] \div 2  cut == R({h - 40, h, h + 40}) * 8
        rod(lo, hi, r) == [op |-> "box", d |-> 0, c |-> TLCEval([a \in 1..3 |-> IF a = ax THEN (lo + hi) \div 2 ELSE 4 * n[a] + R(-1..1)]),
                           r |-> [a \in 1..3 |-> IF a = ax THEN (hi - lo) \div 2 ELSE r]] IN
    [case |-> i, dims |-> d, off |-> Seqs(-3..3, 3), unit |-> R({1, 8, 13, 80, -12, -20, 30000}), cells |-> w * len, rt3 |-> FALSE,
     shape |-> "", workers |-> R({0, 3}),
     field |-> Bin("min", rod(12, cut, IF far THEN 2 ELSE 14), rod(cut - 2, 8 * n[ax] - 12, IF far THEN 14 ELSE 2))]
Long == atoi(IOEnv.LONG)
LongLen == atoi(IOEnv.LONGLEN)
VARIABLE i
Init == i = 0
Total == 13 * N + Len(Names) + Long
Kind(j) == (j % 13) + 1
Next == /\ i < Total /\ i' = i + 1
        /\ LET j == i + 1 IN
           CSVWrite("%1$s", <<ToJson(IF j <= 13 * N THEN Case(j, Kind(j), R({3, 4} \cup (5..Big) ), Seqs({1, 2, 3}, 3))
                                     ELSE IF j > 13 * N + Len(Names) THEN LongCase(j, R({TRUE, FALSE}), LongLen, (j % 3) + 1)
                                     ELSE RealCase(j, Names[j - 13 * N], R(6..(Big + 2))))>>, OutFile)
Spec == Init /\ [][Next]_i
=============================================================================
