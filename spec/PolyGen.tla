------------------------------- MODULE PolyGen -------------------------------
(* Histories of polygon builder calls. Coordinates are integers; the generator follows *)
(* roughly where vertices are so that arcs and corners of all proportions occur, from   *)
(* requests which fit easily to ones which do not. Run with -simulate.                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils, CSV, Randomization, Trig
OutFile == IOEnv.OUT
Steps == atoi(IOEnv.STEPS)
VARIABLES pts, log, step, closed, asked
vars == <<pts, log, step, closed, asked>>
R(lo, hi) == RandomElement(lo..hi)
Pick(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
A(x) == IF x < 0 THEN -x ELSE x
Mx(x, y) == IF x > y THEN x ELSE y
RD(a, b) == IF a < 0 THEN -((-a + b \div 2) \div b) ELSE (a + b \div 2) \div b
\* within 8 percent of the length
Long(v) == LET x == A(v[1])  y == A(v[2]) IN IF x > y THEN x + (y * 3) \div 8 ELSE y + (x * 3) \div 8
Nowhere == <<100000, 0>>
End == IF pts = <<>> THEN Nowhere ELSE pts[Len(pts)]
Vec(x) == One({CASE k <= 2 -> <<Pick({200, 600, 1000, -600, -1000, 300}), 0>> [] k = 3 -> <<0, Pick({600, -600, 1000, 250})>>
               [] k = 4 -> <<Pick({300, -600}), Pick({400, -800})>> [] k = 5 -> <<0, 0>> [] OTHER -> <<R(-1500, 1500), R(-1500, 1500)>> : k \in {R(1, 12)}})
\* a modifier for a vertex reached along a step of length d
Mod(d, first) == One({
   CASE k <= 3 -> <<"none", 0, 0>>
     [] k <= 6 -> <<"smooth", Pick({R(10, 60), R(50, 400), R(50, 400), Mx(d \div 3, 8), Mx(d, 10)}), Pick({0, 1, 2, 3, 4, 5, 8})>>
     [] k <= 7 -> <<"chamfer", Pick({R(10, 60), R(50, 400), Mx(d \div 3, 8), Mx(d, 10)}), 0>>
     [] OTHER -> <<"arc", Pick({1, -1}) * One({CASE h = 1 -> (d + 1) \div 2 [] h = 2 -> Mx(d \div 3, 7) [] h = 3 -> Mx(IF d > 3800 THEN 19000 ELSE 5 * d, 20) [] h = 4 -> Mx(d, 20) [] OTHER -> Mx((d * R(52, 120)) \div 100, 20) : h \in {R(1, 7)}}),
                   Pick({0, 1, 2, 3, 4, 5, 8})>> : k \in {R(1, 10)}})
Ev(k, x, y, m) == [k |-> k, x |-> x, y |-> y, m |-> m[1], r |-> m[2], f |-> m[3]]
Add == \E v \in {Vec(0)} : \E m \in {Mod(Long(v), pts = <<>>)} :
   LET p == IF pts = <<>> THEN v ELSE <<End[1] + v[1], End[2] + v[2]>> IN
   /\ pts' = Append(pts, p)
   /\ log' = Append(log, IF pts = <<>> \/ R(1, 2) = 1 THEN Ev("add", p[1], p[2], m) ELSE Ev("rel", v[1], v[2], m))
Polar == \E r \in {Pick({600, R(100, 1500)})} : \E t \in {Pick({0, 9000, -9000, 4500, R(-36000, 36000)})} : \E rel \in {pts # <<>> /\ R(1, 3) > 1} :
   LET v == <<RD(r * Cos(t), TrigScale), RD(r * Sin(t), TrigScale)>>
       d == IF rel \/ pts = <<>> THEN r ELSE Long(<<v[1] - End[1], v[2] - End[2]>>) IN
   /\ pts' = Append(pts, IF rel THEN <<End[1] + v[1], End[2] + v[2]>> ELSE v)
   /\ log' = Append(log, Ev(IF rel THEN "relpolar" ELSE "polar", r, t, Mod(d, FALSE)))
\* the corner a straight step would be, and a spike
Straight == LET n == Len(pts) IN n >= 2 /\
   \E s \in {Pick({1, 2, -1})} : LET v == <<s * (pts[n][1] - pts[n - 1][1]), s * (pts[n][2] - pts[n - 1][2])>> IN
   /\ A(v[1]) + A(v[2]) < 4000
   /\ pts' = Append(pts, <<End[1] + v[1], End[2] + v[2]>>)
   /\ log' = Append(log, Ev("rel", v[1], v[2], Mod(Long(v), FALSE)))
Drop == Len(pts) >= 2 /\ pts' = SubSeq(pts, 1, Len(pts) - 1) /\ log' = Append(log, Ev("drop", 0, 0, <<"", 0, 0>>))
Nop(k) == pts' = pts /\ log' = Append(log, Ev(k, 0, 0, <<"", 0, 0>>))
Big == A(End[1]) > 3500 \/ A(End[2]) > 3500
Home == \E v \in {<<R(-900, 900), R(-900, 900)>>} :
   /\ pts' = Append(pts, v)
   /\ log' = Append(log, Ev("add", v[1], v[2], Mod(IF pts = <<>> THEN 500 ELSE Long(<<v[1] - End[1], v[2] - End[2]>>), FALSE)))
Init == pts = <<>> /\ log = <<>> /\ step = 0 /\ closed = FALSE /\ asked = FALSE
Act == \E h \in {R(1, 20)} :
   IF pts = <<>> THEN Add /\ UNCHANGED <<closed, asked>>
   ELSE IF Big THEN Home /\ UNCHANGED <<closed, asked>>
   ELSE CASE h <= 8 -> Add /\ UNCHANGED <<closed, asked>>
          [] h <= 12 -> Polar /\ UNCHANGED <<closed, asked>>
          [] h = 13 /\ Len(pts) >= 2 /\ ~asked -> (Straight \/ (~ENABLED Straight /\ Nop("query"))) /\ UNCHANGED <<closed, asked>>
          \* after a query vertices have been replaced, so only the last call is dropped before any
          [] h = 14 /\ Len(pts) >= 2 /\ ~asked -> Drop /\ UNCHANGED <<closed, asked>>
          [] h = 15 -> Home /\ UNCHANGED <<closed, asked>>
          \* closing after a query would be about an arc of the first vertex which was already given up
          [] h \in 16..17 /\ ~asked -> Nop("close") /\ closed' = TRUE /\ UNCHANGED asked
          [] h = 18 -> Nop("reverse") /\ UNCHANGED <<closed, asked>>
          [] h = 19 /\ Len(pts) >= 3 -> Nop("query") /\ asked' = TRUE /\ UNCHANGED closed
          [] OTHER -> Add /\ UNCHANGED <<closed, asked>>
Q == Ev("query", 0, 0, <<"", 0, 0>>)
Next == \/ step < Steps /\ step' = step + 1 /\ Act
        \/ /\ step = Steps /\ step' = step + 1 /\ UNCHANGED <<pts, log, closed, asked>>
           /\ \E cl \in {R(1, 3) = 1} :
              CSVWrite("%1$s", <<ToJson([unit |-> Pick({1, 10, 1000}), set |-> R(1, 3) = 1, n |-> R(0, 14), r |-> R(100, 4000),
                 log |-> (IF cl /\ ~asked THEN Append(log, Ev("close", 0, 0, <<"", 0, 0>>)) ELSE log) \o <<Q, Q>>])>>, OutFile)
Spec == Init /\ [][Next]_vars
=============================================================================
