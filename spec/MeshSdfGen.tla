------------------------------ MODULE MeshSdfGen ------------------------------
(* Solids with their meshes and probes. A solid grows from one cell by cells added and    *)
(* removed while it stays a manifold. Run with -simulate.                                *)
EXTENDS MeshSdf, SequencesExt, Json, IOUtils, CSV, Randomization
OutFile == IOEnv.OUT
Grow == atoi(IOEnv.GROW)
Probes == atoi(IOEnv.PROBES)
VARIABLES w, step
R(lo, hi) == RandomElement(lo..hi)
Pick(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
Unit3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Mats == { m \in { <<<<1, a, 0>>, <<b, 1, c>>, <<d, e, f>>>> : a \in -1..1, b \in -1..1, c \in 0..1, d \in -1..1, e \in {-1, 1}, f \in {-2, 1, 2} } :
            LET k == Det([c |-> m]) IN k # 0 /\ k <= 3 /\ k >= -3 }
Planes(d) == One({CASE n = 1 -> <<a, a + 2 * Pick({1, 1, 2, 4, 9})>>
                 [] n = 2 -> One({<<a, b, b + 2 * Pick({1, 1, 2, 4, 9})>> : b \in {a + 2 * Pick({1, 2, 3, 9})}})
                 [] OTHER -> One({<<a, a + b, a + b + c, a + b + c + 2 * Pick({1, 2, 6})>> : b \in {2 * Pick({1, 2, 6})}, c \in {2 * Pick({1, 2, 6})}})
                : n \in {R(1, 3)}, a \in {2 * R(-4, 1)}})
World(s) == One({[g |-> <<Planes(1), Planes(2), Planes(3)>>, c |-> IF k = 1 THEN Unit3 ELSE Pick(Mats), cells |-> {}] : k \in {R(1, 3)}})
Toggle(x, q) == LET y == [x EXCEPT !.cells = IF q \in @ THEN @ \ {q} ELSE @ \cup {q}]
                IN IF y.cells = {} \/ ~Manifold(y) THEN x ELSE y
\* triangles with their corners in a random turn
Turn(t) == One({CASE k = 0 -> t [] k = 1 -> <<t[2], t[3], t[1]>> [] OTHER -> <<t[3], t[1], t[2]>> : k \in {R(0, 2)}})
Tris(x, F, style) == FlattenSeq([i \in 1..Len(F) |-> One({[j \in 1..Len(t) |-> Turn(t[j])] : t \in {Divide(Corners(x, F[i]), IF style < 3 THEN style ELSE R(0, 2))}})])
Probe(x, V, lo, hi) ==
   One({CASE k <= 5 -> Add(Pick(V), <<R(-3, 3), R(-3, 3), R(-3, 3)>>)
          [] k <= 7 -> Add(Pick(V), Mul(R(1, 12), <<R(-1, 1), R(-1, 1), R(-1, 1)>>))
          [] OTHER -> <<R(lo[1] - 6, hi[1] + 6), R(lo[2] - 6, hi[2] + 6), R(lo[3] - 6, hi[3] + 6)>> : k \in {R(1, 10)}})
SeqN(n, F(_)) == [i \in 1..n |-> F(i)]
Low(V, d) == MinOf({ v[d] : v \in V })
High(V, d) == -MinOf({ -v[d] : v \in V })
Case(x) ==
  One({One({One({One({
     [tris |-> T, lo |-> lo, hi |-> hi, cells |-> Cardinality(x.cells), det |-> Det(x), pose |-> R(0, 999),
      bad |-> IF R(1, 12) = 1 THEN <<R(1, Len(T)), R(0, 2), R(0, 2), R(0, 1)>> ELSE <<>>,
      pr |-> SeqN(Probes, LAMBDA i : One({<<p[1], p[2], p[3], Where(x, p), Dist2(x, F, p)>> : p \in {Probe(x, V, lo, hi)}}))]
     : T \in {Tris(x, Q, R(0, 4))}, lo \in {<<Low(V, 1), Low(V, 2), Low(V, 3)>>}, hi \in {<<High(V, 1), High(V, 2), High(V, 3)>>}})
     : V \in {UNION { Range(Corners(x, f)) : f \in F }}})
     : Q \in {SetToSeq(F)}})
     : F \in {Exposed(x)}})
Init == step = 0 /\ w = [cells |-> {}]
Next == \/ step = 0 /\ step' = 1 /\ \E x \in {World(step)} : w' = [x EXCEPT !.cells = {Pick(Cells(x))}]
        \/ step \in 1..Grow /\ step' = step + 1 /\ \E q \in {Pick(Cells(w))} : w' = Toggle(w, q)
        \/ step = Grow + 1 /\ step' = step + 1 /\ UNCHANGED w
           /\ \E x \in {Case(w)} : CSVWrite("%1$s", <<ToJson(x)>>, OutFile)
Spec == Init /\ [][Next]_<<w, step>>
===============================================================================
