------------------------------ MODULE MatrixGen ------------------------------
(* Programs which build matrices from moves, products and inverses, written out with   *)
(* the exact images of points, the determinant and the box image of every matrix.      *)
(* dim 2 uses moves of the plane. Run with -simulate.                                   *)
EXTENDS Matrix, Json, IOUtils, CSV, Randomization, FiniteSets
OutFile == IOEnv.OUT
Steps == atoi(IOEnv.STEPS)
VARIABLES heap, ws, dim, done
vars == <<heap, ws, dim, done>>
R(lo, hi) == RandomElement(lo..hi)
Pick(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
SeqN(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<4, -3, 5>>, <<-3, -4, 5>>, <<5, 12, 13>>, <<-15, 8, 17>>}
Axes == {<<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>, <<0, 0, -1, 1>>, <<1, 2, 2, 3>>, <<-2, 1, 2, 3>>, <<0, 3, 4, 5>>, <<4, 0, -3, 5>>, <<2, -4, 4, 6>>, <<2, -3, 6, 7>>}
Leaf3(k) == CASE k <= 3 -> [op |-> "tr", a |-> <<R(-9, 9), R(-9, 9), R(-9, 9)>>]
              [] k = 4 -> [op |-> "sc", a |-> SeqN(3, LAMBDA i : Pick({1, 2, 4, 8, -4, -2, 16}))]
              [] k <= 6 -> [op |-> "ro", a |-> Pick({<<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>}) \o Pick(Angles)]
              [] k <= 9 -> [op |-> "ro", a |-> Pick(Axes) \o Pick(Angles)]
              [] OTHER -> [op |-> Pick({"mxy", "mxz", "myz", "meq"}), a |-> <<>>]
\* in the plane mxz is the mirror named X (y changes sign) and myz the one named Y
Leaf2(k) == CASE k <= 3 -> [op |-> "tr", a |-> <<R(-9, 9), R(-9, 9), 0>>]
              [] k = 4 -> [op |-> "sc", a |-> SeqN(3, LAMBDA i : IF i = 3 THEN 4 ELSE Pick({1, 2, 4, 8, -4, -2, 16}))]
              [] k <= 9 -> [op |-> "ro", a |-> <<0, 0, 1, 1>> \o Pick(Angles)]
              [] OTHER -> [op |-> Pick({"mxz", "myz"}), a |-> <<>>]
Ent(m) == [op |-> m.op, a |-> m.a, in |-> <<>>]
LeafW(m) == CASE m.op = "ro" -> m.a[7] * m.a[4] * m.a[4] [] m.op = "sc" -> 24 [] OTHER -> 1
LIMIT == 30000
New == LET n == Len(heap) IN
   \/ n < 3 /\ \E m \in {Ent(IF dim = 3 THEN Leaf3(R(1, 10)) ELSE Leaf2(R(1, 10)))} :
        heap' = Append(heap, m) /\ ws' = Append(ws, LeafW(m))
   \/ n >= 3 /\ \E h \in {R(1, 10)} :
        CASE h <= 3 -> \E m \in {Ent(IF dim = 3 THEN Leaf3(R(1, 10)) ELSE Leaf2(R(1, 10)))} :
                       heap' = Append(heap, m) /\ ws' = Append(ws, LeafW(m))
          [] h <= 5 -> \E i \in {R(1, n)} : heap' = Append(heap, [op |-> "inv", a |-> <<>>, in |-> <<i>>]) /\ ws' = Append(ws, ws[i])
          [] OTHER -> \E i \in {R(1, n)} : \E j \in {R(1, n)} :
                       IF ws[i] * ws[j] <= LIMIT /\ Len(Path(heap, i, FALSE)) + Len(Path(heap, j, FALSE)) <= 7
                       THEN heap' = Append(heap, [op |-> "mul", a |-> <<>>, in |-> <<i, j>>]) /\ ws' = Append(ws, ws[i] * ws[j])
                       ELSE heap' = Append(heap, [op |-> "inv", a |-> <<>>, in |-> <<i>>]) /\ ws' = Append(ws, ws[i])
Z(v) == IF dim = 2 THEN 0 ELSE v
Probe(i, qs) == One({ One({ [det |-> Det(heap, i, dim = 2), pts |-> SeqN(3, LAMBDA h : qs[h] \o Act(heap, i, qs[h] \o <<1>>)),
              lo |-> lo, hi |-> hi, box |-> BoxOf(heap, i, lo, hi)] : hi \in {SeqN(3, LAMBDA k : IF k = 3 THEN Z(lo[3] + R(0, 9)) ELSE lo[k] + R(0, 9))}})
              : lo \in {<<R(-9, 9), R(-9, 9), Z(R(-9, 9))>>}})
Init == heap = <<>> /\ ws = <<>> /\ dim \in {2, 3} /\ done = FALSE
Next == \/ Len(heap) < Steps /\ New /\ UNCHANGED <<dim, done>>
        \/ /\ Len(heap) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<heap, ws, dim>>
           /\ \E qs \in {SeqN(3, LAMBDA h : <<R(-9, 9), R(-9, 9), Z(R(-9, 9))>>)} :
              CSVWrite("%1$s", <<ToJson([dim |-> dim, turn |-> R(-1, 1), ops |-> heap, pr |-> SeqN(Len(heap), LAMBDA i : Probe(i, qs))])>>, OutFile)
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- laws
Top == Len(heap)
P0 == <<3, -2, IF dim = 2 THEN 0 ELSE 5, 1>>
Same(p, q) == \A k \in 1..3 : p[k] * (q[4] \div p[4]) = q[k]
\* undoing gives the point back
Undoes == Top > 0 /\ ws[Top] <= 200 => LET q == TLCEval(Act(heap, Top, P0))
                               back == TLCEval(Follow(heap, Path(heap, Top, TRUE), q)) IN Same(P0, back)
\* rotations keep lengths and orientation
Rigid == Top > 0 /\ heap[Top].op = "ro" =>
   LET M == Rows(heap[Top])  d == M.d IN
   /\ \A i, j \in 1..3 : Dot(M.r[i], M.r[j]) = IF i = j THEN d * d ELSE 0
   /\ LET u == M.r[1] v == M.r[2] w == M.r[3] IN
      u[2] * v[3] - u[3] * v[2] = d * w[1] /\ u[3] * v[1] - u[1] * v[3] = d * w[2]
\* the axis stays where it is
Axis == Top > 0 /\ heap[Top].op = "ro" =>
   LET k == heap[Top].a  M == Rows(heap[Top]) IN \A i \in 1..3 : Dot(M.r[i], k) = M.d * k[i]
=============================================================================
