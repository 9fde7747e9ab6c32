------------------------------- MODULE OctreeGen -------------------------------
(* Cases for the octree renderer: the model (isolated lattice corners, or a field   *)
(* with a pseudo random sign at every corner, which puts every one of the 256       *)
(* corner patterns into the mesh), the history of buffer lengths, the number of     *)
(* workers and the order in which their evaluations are let through.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, Randomization, FiniteSets, SequencesExt
OutFile == IOEnv.OUT
N == atoi(IOEnv.NSIM)
Mode == IOEnv.MODE
Max3(d) == LET m == IF d[1] > d[2] THEN d[1] ELSE d[2] IN IF m > d[3] THEN m ELSE d[3]
\* whole cells along each axis, by the stated resolution
CellsOf(cells, d) == [a \in 1..3 |-> (cells * d[a]) \div Max3(d)]
Fix(cells, d) == [a \in 1..3 |-> IF CellsOf(cells, d)[a] < 3 THEN Max3(d) ELSE d[a]]
\* corners two or more cells apart, away from the bounds
Grid(n, par) == { p \in (1..(n[1]-1)) \X (1..(n[2]-1)) \X (1..(n[3]-1)) : \A a \in 1..3 : p[a] % 2 = par[a] }
RandPts(k, n) ==
    LET par == TLCEval([a \in 1..3 |-> IF n[a] < 4 THEN 1 ELSE RandomElement({0, 1})])
        g == Grid(n, par) IN
    IF Cardinality(g) <= k THEN g ELSE RandomSubset(k, g)
Lens == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16, 19, 20, 21, 24, 25, 26, 31, 33, 50, 64, 100, 257, 1024, 5000}
Seqs(S, k) == TLCEval([i \in 1..k |-> RandomElement(S)])
RandLens(i) == Seqs(Lens, RandomElement(1..6))
Base(i) == [case |-> i, off |-> Seqs(-3..3, 3), unit |-> RandomElement({1, 8, 13, 80, -12, -20, 30000}), rt3 |-> FALSE, shape |-> "",
            sched |-> IF RandomElement(1..4) = 1 THEN <<>> ELSE Seqs(0..7, 40)]
PointsCase(i, cells, d0, k, lens, w) ==
    LET d == TLCEval(Fix(cells, d0))  n == TLCEval(CellsOf(cells, d)) IN
    Base(i) @@ [dims |-> d, cells |-> cells, lens |-> lens, workers |-> w,
                field |-> [op |-> "points", pts |-> SetToSeq(RandPts(k, n))]]
HashCase(i, cells, d0, lens, w) ==
    LET d == TLCEval(Fix(cells, d0))  n == TLCEval(CellsOf(cells, d)) IN
    Base(i) @@ [dims |-> d, cells |-> cells, lens |-> lens, workers |-> w,
                field |-> [op |-> "hash", d |-> RandomElement(1..3), n |-> n]]
Dims(i) == Seqs(1..4, 3)

\* exhaustive: every pair of buffer lengths, every worker count with every buffer length
PairsMax == atoi(IOEnv.PAIRS)
Pairs == { <<a, b>> : a \in 1..PairsMax, b \in 1..PairsMax }
Put(c) == CSVWrite("%1$s", <<ToJson(c)>>, OutFile)
\* random values are drawn once per case, by the quantifiers
Case(i, hash, Cells, Workers) ==
   \E cells \in {RandomElement(Cells)}, d \in {Dims(i)}, lens \in {RandLens(i)}, w \in {RandomElement(Workers)}, k \in {RandomElement(1..40)} :
      Put(IF hash THEN HashCase(i, cells, d, lens, w) ELSE PointsCase(i, cells, d, k, lens, w))
Serial(x) ==
          /\ \A p \in Pairs : Put(PointsCase(p[1] * 100 + p[2], 4, <<1, 1, 1>>, 6, p, 0))
          /\ \A i \in 1..N : Case(100000 + i, FALSE, 3..20, {0})
          /\ \A i \in 1..N : \E w \in {RandomElement({0, 0, 0, 1})} : Case(200000 + i, TRUE, 3..7, {w})
Par(x) ==
       /\ \A p \in { <<l, w>> : l \in 1..PairsMax, w \in 1..8 } :
             Put(PointsCase(p[1] * 100 + p[2], 5, <<1, 1, 1>>, 8, <<p[1]>>, p[2]))
       /\ \A i \in 1..N : \E c \in {RandomElement({3, 4, 5, 6, 7, 8, 8, 9, 16})} : Case(100000 + i, FALSE, {c}, 1..9)
       /\ \A i \in 1..N : Case(200000 + i, TRUE, 3..6, 1..9)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ IF Mode = "serial" THEN Serial(0) ELSE Par(0)
Spec == Init /\ [][Next]_done
=============================================================================
