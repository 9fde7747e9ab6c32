--------------------------------- MODULE Params ---------------------------------
(* Which parameters a part may have. A call is a constructor and its parameters, lengths in *)
(* quarters. Verdict says "err" where the parameters mean no shape, "ok" where they do, and   *)
(* "any" where nothing is promised about acceptance (but a shape must still be usable).       *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils
Call(k, a, s) == [k |-> k, a |-> a, s |-> s]      \* numbers a, names s
If(bad, good) == IF bad THEN "err" ELSE IF good THEN "ok" ELSE "any"
Min(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE Dedupe(_)
\* a repeated vertex adds nothing
Dedupe(p) == IF Len(p) < 2 THEN p ELSE LET r == Dedupe(SubSeq(p, 1, Len(p) - 1)) IN IF r[Len(r)] = p[Len(p)] THEN r ELSE Append(r, p[Len(p)])
Corners(p) == Cardinality({p[i] : i \in 1..Len(p)})

Circle(a) == If(a[1] < 0, a[1] > 0)
Sphere(a) == If(a[1] <= 0, TRUE)
Box2(a) == If(a[1] < 0 \/ a[2] < 0 \/ a[3] < 0, a[1] > 0 /\ a[2] > 0 /\ 2 * a[3] <= Min(a[1], a[2]))
Line(a) == If(a[1] < 0 \/ a[2] < 0, a[1] > 0)
Polygon(p) == If(Len(Dedupe(p)) < 3, Corners(p) > 2)
Nagon(a) == If(FALSE, a[1] > 2 /\ a[2] > 0)
Box3(a) == If(a[1] <= 0 \/ a[2] <= 0 \/ a[3] <= 0 \/ a[4] < 0, 2 * a[4] <= Min(a[1], Min(a[2], a[3])))
Cylinder(a) == If(a[2] <= 0 \/ a[3] < 0 \/ a[3] > a[2] \/ a[1] < 2 * a[3], a[1] > 0)             \* height, radius, rounding
Capsule(a) == Cylinder(<<a[1], a[2], a[2]>>)
\* height, radii, rounding. Rounding draws both radii in, less than twice the rounding when the slope is steep
Cone(a) == If(a[1] <= 0 \/ a[2] < 0 \/ a[3] < 0 \/ a[4] < 0 \/ a[1] < 2 * a[4],
              (a[4] = 0 /\ a[2] + a[3] > 0) \/ (2 * Abs(a[2] - a[3]) <= a[1] /\ Min(a[2], a[3]) >= 2 * a[4] /\ Min(a[2], a[3]) > 0))
\* fractions of the radius in quarters; a shape or none
Chamfered(a, s) == If(s[1] = "nil", a[1] >= 0 /\ a[2] >= 0 /\ a[1] <= 2 /\ a[2] <= 2)

Threads == {"isoe", "isoi", "acme", "ansi", "plas", "utse", "utsi", "npt"}
BadThread(s, d, p) == s[1] = "nil" \/ d < 0 \/ p <= 0
GoodThread(d, p) == d >= 4 * p
Screw(a, s) == If(BadThread(s, a[1], a[2]) \/ a[3] <= 0, GoodThread(a[1], a[2]))                  \* diameter, pitch, length
HexHead(a, s) == If(a[1] <= 0 \/ a[2] <= 0, s[1] \in {"", "t", "b", "tb"})                       \* radius, height
\* length, radius, pitch, height of the ribs, degrees
Knurl(a) == If(a[1] <= 0 \/ a[2] <= 0 \/ a[3] <= 0 \/ a[4] <= 0 \/ a[5] < 0 \/ a[5] >= 90, TRUE)
KnurledHead(a) == If(a[1] <= 0 \/ a[2] <= 0 \/ a[3] <= 0, a[2] * 20 >= 20 * a[3] + a[1] /\ a[2] * 10 >= a[1])       \* radius, height, pitch
\* diameter, pitch, total length, shank length, tolerance; thread and style
Bolt(a, s) == If(BadThread(s, a[1], a[2]) \/ a[1] = 0 \/ a[3] < 0 \/ a[4] < 0 \/ a[4] >= a[3] \/ a[5] < 0 \/ s[2] \notin {"hex", "knurl"}, GoodThread(a[1], a[2]))
\* diameter, pitch, tolerance; thread and style
Nut(a, s) == If(BadThread(s, a[1], a[2]) \/ a[3] < 0 \/ s[2] \notin {"circular", "hex", "knurl"}, GoodThread(a[1], a[2]))
\* pillar height and diameter, hole depth and diameter, webs: number (not in quarters), height, diameter, width
Standoff(a) == If(a[1] <= 0 \/ a[2] <= 0 \/ a[4] < 0 \/ (a[5] > 0 /\ (a[6] <= 0 \/ a[7] <= 0 \/ a[8] <= 0)), a[5] >= 0)
\* size, corner, hole, thickness (flat panels have none); four patterns
Panel2(a) == If(a[1] <= 0 \/ a[2] <= 0 \/ a[3] < 0, 2 * a[3] <= Min(a[1], a[2]))
Panel3(a) == IF a[5] <= 0 THEN "err" ELSE Panel2(a)
\* units, pitches, corner, hole, thickness
Euro2(a) == If(a[1] < 4 \/ a[2] <= 4 \/ a[3] < 0 \/ a[4] < 0, a[3] <= 4)
Euro3(a) == IF a[5] <= 0 THEN "err" ELSE Euro2(a)
\* diameter, thickness, indent, offset
PanelHole(a, s) == If(s[1] = "nil" \/ a[1] <= 0 \/ a[2] <= 0 \/ a[3] < 0 \/ a[4] < 0 \/ a[5] < 0 \/ a[6] < 0, TRUE)

Verdict(c) ==
  CASE c.k = "circle" -> Circle(c.a) [] c.k = "sphere" -> Sphere(c.a) [] c.k = "box2" -> Box2(c.a) [] c.k = "line" -> Line(c.a)
    [] c.k = "polygon" -> Polygon(c.a) [] c.k = "nagon" -> Nagon(c.a) [] c.k = "box3" -> Box3(c.a) [] c.k = "cylinder" -> Cylinder(c.a)
    [] c.k = "capsule" -> Capsule(c.a) [] c.k = "cone" -> Cone(c.a) [] c.k = "chamfered" -> Chamfered(c.a, c.s) [] c.k = "screw" -> Screw(c.a, c.s)
    [] c.k = "hexhead" -> HexHead(c.a, c.s) [] c.k = "knurl" -> Knurl(c.a) [] c.k = "knurledhead" -> KnurledHead(c.a) [] c.k = "bolt" -> Bolt(c.a, c.s)
    [] c.k = "nut" -> Nut(c.a, c.s) [] c.k = "standoff" -> Standoff(c.a) [] c.k = "panel2" -> Panel2(c.a) [] c.k = "panel3" -> Panel3(c.a)
    [] c.k = "euro2" -> Euro2(c.a) [] c.k = "euro3" -> Euro3(c.a) [] c.k = "panelhole" -> PanelHole(c.a, c.s)

---------------------------------------------------------------------------------
V == IF IOEnv.WIDE = "1" THEN {-20, -4, -1, 0, 1, 2, 3, 4, 6, 8, 20, 50} ELSE {-4, -1, 0, 1, 2, 4, 8, 20}
Set(a, i, x) == [a EXCEPT ![i] = x]
\* all pairs of parameters over V around a valid base
Pairs(k, base, s, vals) == { Call(k, Set(Set(base, i, x), j, y), s) : i \in 1..Len(base), j \in 1..Len(base), x \in vals, y \in vals }
Tuples(n, S) == [1..n -> S]
All(k, n) == { Call(k, a, <<>>) : a \in Tuples(n, V) }
Points == { <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 2>> }
Polygons(n) == { Call("polygon", p, <<>>) : p \in UNION { Tuples(m, Points) : m \in 0..n } }
Patterns == { <<"x", "x", "x", "x">>, <<"", "", "", "">>, <<"xx", "x.x", ".", "">>, <<"", "x", "", "">>, <<".x", "", "xxx", "x">> }
Styles == {"circular", "hex", "knurl", "none", "other"}
Rounds == {"", "t", "b", "tb", "x"}
IsCall(c) ==
  \/ c \in All("circle", 1)
  \/ c \in All("sphere", 1)
  \/ c \in All("box2", 3)
  \/ c \in All("line", 2)
  \/ c \in All("box3", 4)
  \/ c \in All("cylinder", 3)
  \/ c \in All("capsule", 2)
  \/ c \in All("cone", 4)
  \/ c \in Polygons(5)
  \/ c \in { Call("nagon", <<n, r>>, <<>>) : n \in -1..9, r \in V }
  \/ c \in { Call("chamfered", <<x, y>>, <<s>>) : x \in V, y \in V, s \in {"nil", "cyl", "ball"} }
  \/ c \in { Call("screw", a, <<s>>) : a \in Tuples(3, V), s \in Threads \cup {"nil"} }
  \/ c \in { Call("hexhead", a, <<s>>) : a \in Tuples(2, V), s \in Rounds }
  \/ c \in { Call("knurl", <<a[1], a[2], a[3], a[4], t>>, <<>>) : a \in Tuples(4, {-1, 0, 1, 2, 8}), t \in {-1, 0, 30, 45, 89, 90, 100} }
  \/ c \in All("knurledhead", 3)
  \/ \E t \in {"nil", "isoe", "npt", "acme"}, s \in Styles : c \in Pairs("bolt", <<8, 1, 20, 4, 0>>, <<t, s>>, V)
  \/ \E t \in {"nil", "isoi", "npt", "acme"}, s \in Styles : c \in Pairs("nut", <<8, 1, 0>>, <<t, s>>, V)
  \/ c \in Pairs("standoff", <<20, 8, 4, 4, 3, 8, 20, 1>>, <<>>, V)
  \/ c \in Pairs("standoff", <<20, 8, -4, 4, 0, 0, 0, 0>>, <<>>, V)
  \/ \E k \in {"panel2", "panel3"}, p \in Patterns : c \in Pairs(k, <<40, 20, 2, 4, 2>>, p, V)
  \/ \E k \in {"euro2", "euro3"}, s \in {<<"ridge">>, <<"flat">>} : c \in Pairs(k, <<12, 20, 2, 0, 4>>, s, V)
  \/ \E s \in {"nil", "0", "45", "-90"} : c \in Pairs("panelhole", <<8, 4, 2, 4, 1, 8>>, <<s>>, V)
=================================================================================
