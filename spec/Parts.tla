---------------------------------- MODULE Parts ----------------------------------
(* What parts are made of. Side says whether a probe is inside (-1) or outside (1) a part, *)
(* or on its surface or where nothing is promised (0). Lengths are whole numbers; sizes    *)
(* and diameters are even. Parts of bolts are measured in ten-thousandths of half the      *)
(* distance across the flats of their heads, which makes the hexagon's radius 11547 and    *)
(* the height of a head 9622; they are known to a few units.                               *)
EXTENDS Integers, Sequences, Screw
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Max3(a, b, c) == Max(a, Max(b, c))
S(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
Union(a, b) == Min(a, b)
Meet(a, b) == Max(a, b)
Less(a, b) == Max(a, -b)
Half(n) == n \div 2
\* a disc of radius r around the origin
Disc(x, y, r) == IF Abs(x) > r \/ Abs(y) > r THEN 1 ELSE S((x * x + y * y) - r * r)
Slab(z, lo, hi) == Max(S(lo - z), S(z - hi))
Rod(p, r, lo, hi) == Max(Disc(p[1], p[2], r), Slab(p[3], lo, hi))
Rect(x, y, hx, hy) == Max(S(Abs(x) - hx), S(Abs(y) - hy))
\* with rounded corners
Plate(x, y, hx, hy, r) == LET qx == Abs(x) - (hx - r)  qy == Abs(y) - (hy - r)
                          IN IF qx > 0 /\ qy > 0 THEN Disc(qx, qy, r) ELSE Rect(x, y, hx, hy)

---------------------------------------------------------------------------------
(* A standoff is centred; the probe is seen from one of its webs, which reaches along x.   *)
\* thousandths of the tangent of half a web's share of the turn
Tangent == <<0, 0, 1732, 1000, 726, 577, 481, 414>>
InShare(n, x, y) == n = 1 \/ (x > 0 /\ (n = 2 \/ 1000 * Abs(y) < Tangent[n] * x))
Pillar(s, p) == Rod(p, Half(s.D), -Half(s.H), Half(s.H))
Web(s, p) == LET h == p[3] + Half(s.H)
             IN IF s.n = 0 THEN 1
                ELSE IF ~InShare(s.n, p[1], p[2]) THEN 0
                ELSE Max3(Max(S(2 * Abs(p[2]) - s.Ww), S(-p[1])), Slab(p[3], -Half(s.H), Half(s.H)), S((2 * p[1] * s.Wh + h * s.Wd) - s.Wh * s.Wd))
NoHole(s) == s.hd = 0 \/ s.hD = 0
Hole(s, p) == IF NoHole(s) THEN 1 ELSE IF s.hd > 0 THEN Rod(p, Half(s.hD), Half(s.H) - s.hd, Half(s.H)) ELSE Rod(p, Half(s.hD), Half(s.H), Half(s.H) - s.hd)
Standoff(s, p) == LET b == Union(Pillar(s, p), Web(s, p))
                  IN IF NoHole(s) THEN b ELSE IF s.hd > 0 THEN Less(b, Hole(s, p)) ELSE Union(b, Hole(s, p))

---------------------------------------------------------------------------------
(* Panels. Margins and patterns go clockwise from the top: top, right, bottom, left.       *)
Corner(s, i) == LET hx == Half(s.X)  hy == Half(s.Y) m == s.margin
                IN CASE i = 1 -> <<m[4] - hx, hy - m[1]>> [] i = 2 -> <<hx - m[2], hy - m[1]>>
                     [] i = 3 -> <<hx - m[2], m[3] - hy>> [] i = 4 -> <<m[4] - hx, m[3] - hy>>
NextEdge(i) == (i % 4) + 1
\* patterns are sequences of 1 for a hole and 0 for none, spread from their corner towards the next
HoleAt(s, i, j) == LET a == Corner(s, i)  b == Corner(s, NextEdge(i))  n == Len(s.pattern[i])
                   IN <<a[1] + ((b[1] - a[1]) * (j - 1)) \div n, a[2] + ((b[2] - a[2]) * (j - 1)) \div n>>
HolesOf(s) == UNION { { HoleAt(s, i, j) : j \in {j \in 1..Len(s.pattern[i]) : s.pattern[i][j] = 1} } : i \in 1..4 }
InHoles(s, p) == IF s.d = 0 \/ HolesOf(s) = {} THEN 1
                 ELSE LET v == { Disc(p[1] - c[1], p[2] - c[2], Half(s.d)) : c \in HolesOf(s) } IN IF -1 \in v THEN -1 ELSE IF 0 \in v THEN 0 ELSE 1
Flat(s, p) == Less(Plate(p[1], p[2], Half(s.X), Half(s.Y), s.r), InHoles(s, p))
Panel(s, p) == IF s.T = 0 THEN Flat(s, p) ELSE Max(Flat(s, p), Slab(p[3], -Half(s.T), Half(s.T)))
\* eurorack panels, in 200ths of a millimetre: half a unit is 4445, half a pitch 508
EuroX(hp) == 2 * (508 * hp - 24)
EuroY(u) == 2 * (4445 * u - 485)
EuroFlat(s) == [X |-> EuroX(s.hp), Y |-> EuroY(s.u), r |-> s.r, T |-> s.T, d |-> IF s.d = 0 THEN 640 ELSE s.d, margin |-> <<600, 1500, 600, 1500>>,
                pattern |-> IF s.hp < 8 THEN <<<<1>>, <<>>, <<>>, <<1>>>> ELSE <<<<1>>, <<1>>, <<1>>, <<1>>>>]
Ridge(s, p) == Max3(S(Abs(Abs(p[1]) - (Half(EuroX(s.hp)) - Half(s.T))) - Half(s.T)), S(Abs(p[2]) - (Half(EuroY(s.u)) - 1800)), Slab(p[3], Half(s.T), 2 * s.T))
Euro(s, p) == LET f == Panel(EuroFlat(s), p) IN IF s.T = 0 \/ s.ridge = 0 THEN f ELSE Union(f, Ridge(s, p))
\* the hole for a potentiometer and its pin; the probe is turned with the indent
NoIndent(s) == s.off = 0 \/ s.I[1] = 0 \/ s.I[2] = 0 \/ s.I[3] = 0
PanelHole(s, p) == LET h == Rod(p, Half(s.d), -Half(s.T), Half(s.T))
                   IN IF NoIndent(s) THEN h
                      ELSE Union(h, Max(Rect(p[1] - s.off, p[2], Half(s.I[1]), Half(s.I[2])), Slab(p[3], Half(s.T) - s.I[3], Half(s.T))))

---------------------------------------------------------------------------------
(* Bolts and nuts. A probe is its distance from the axis, 24ths of a turn and its height.   *)
Tol == 4
Sure(v, tol) == IF v < -tol THEN -1 ELSE IF v > tol THEN 1 ELSE 0
Cosine == <<10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659, -10000, -9659, -8660, -7071, -5000, -2588, 0, 2588, 5000, 7071, 8660, 9659>>
XOf(rho, k) == (rho * Cosine[(k % 24) + 1]) \div 10000
YOf(rho, k) == (rho * Cosine[((k - 6) % 24) + 1]) \div 10000
Hr == 11547
Hh == 9622
\* the hexagon of radius 0.92 hr, widened by 0.08 hr; its corners lie on the x-axis
HexOver(m, t) == IF Abs(t) <= 5312 THEN (IF m < 10124 - Tol THEN -1 ELSE IF m > 10124 + Tol THEN 1 ELSE 0)
                 ELSE IF m < 9200 THEN 0 ELSE Sure((m - 9200) * (m - 9200) + (Abs(t) - 5312) * (Abs(t) - 5312) - 924 * 924, 16 * 924)
\* of the three pairs of flats the farthest decides
Hex(x, y) == LET n == <<<<y, x>>, <<(8660 * x + 5000 * y) \div 10000, (8660 * y - 5000 * x) \div 10000>>, <<(8660 * x - 5000 * y) \div 10000, (8660 * y + 5000 * x) \div 10000>>>>
                 i == CHOOSE i \in 1..3 : \A j \in 1..3 : Abs(n[i][1]) >= Abs(n[j][1])
             IN IF Abs(n[i][1]) > 13000 THEN 1 ELSE IF Abs(n[i][1]) < 9200 THEN -1 ELSE HexOver(Abs(n[i][1]), n[i][2])
\* the sphere of radius 1.6 hr which rounds the end of a head
Dome(rho, z, h) == IF Abs(z) > 20000 \/ rho > 20000 THEN 1 ELSE Sure((rho * rho + (z + (15535 - Half(h))) * (z + (15535 - Half(h)))) - 341333333, 10 * 18475)
HexHead(rho, k, z, h, top, bottom) ==
  Max3(Max(Hex(XOf(rho, k), YOf(rho, k)), Sure(Abs(z) - Half(h), Tol)), IF top = 1 THEN Dome(rho, z, h) ELSE -1, IF bottom = 1 THEN Dome(rho, -z, h) ELSE -1)
\* a cylinder with rounded edges
Barrel(rho, z, r, h, e) == LET q == rho - (r - e)  w == Abs(z) - (Half(h) - e)
                           IN IF q > 0 /\ w > 0 THEN (IF q > e + Tol \/ w > e + Tol THEN 1 ELSE Sure((q * q + w * w) - e * e, 4 * Tol * Max(e, 4))) ELSE Sure(Max(rho - r, Abs(z) - Half(h)), Tol)
\* three rows of ribs of a quarter of the radius, which stand out 0.075 of it
KnurlHead(rho, z) == LET core == Barrel(rho, z, Hr, Hh, 577)
                     IN IF core = 1 /\ rho <= Hr + 866 + Tol /\ Abs(z) <= 4330 + Tol THEN 0 ELSE core
Agree(a, b) == IF a = b THEN a ELSE 0
\* the thread is known as well as its outline and its place are
ThreadSide(t, P, starts, beyond, k, z) ==
  LET T(dz, dy) == Side(Shape(t), Wrap(Place(z, k, P, starts) + dz, P), P, beyond + dy)
  IN Agree(Agree(T(-3, -2), T(-3, 2)), Agree(T(3, -2), T(3, 2)))
Rod2(s, rho, k, z, l) == Max(Sure(Abs(z) - Half(l), Tol), ThreadSide(s.thread, s.P, 1, rho - s.R, k, z))
\* the end of the thread is chamfered by 0.354 of the thread's outer radius, which is the nominal one or up to P/8 more
Chamfer(s, rho, z, l) == LET c(r) == (rho + z) - (r + Half(l) - (35355 * (r \div 10)) \div 10000)
                         IN Agree(Sure(c(s.R), 2 * Tol), Sure(c(s.R + s.P \div 8), 2 * Tol))
ThreadMid(s) == s.shank + Half(Hh) + Half(s.total - s.shank)
Shank(s, rho, z) == LET l == s.shank + Half(Hh) IN Barrel(rho, z - Half(l), s.R, l, Min(770, s.R))
BoltHead(s, rho, k, z) == IF s.style = "hex" THEN HexHead(rho, k, z, Hh, 0, 1) ELSE KnurlHead(rho, z)
Winding(s, rho, k, z) == Max(Rod2(s, rho, k, z - ThreadMid(s), s.total - s.shank), Chamfer(s, rho, z - ThreadMid(s), s.total - s.shank))
Bolt(s, rho, k, z) == Union(Union(BoltHead(s, rho, k, z), Shank(s, rho, z)), Winding(s, rho, k, z))
Body(s, rho, k, z) == CASE s.style = "hex" -> HexHead(rho, k, z, Hh, 1, 1) [] s.style = "knurl" -> KnurlHead(rho, z)
                       [] s.style = "circular" -> Max(Sure(rho - 12702, Tol), Sure(Abs(z) - Half(Hh), Tol))
Nut(s, rho, k, z) == Less(Body(s, rho, k, z), Rod2(s, rho, k, z, Hh))

Sides(s, p) == CASE s.k = "standoff" -> Standoff(s, p) [] s.k \in {"panel"} -> Panel(s, p) [] s.k = "euro" -> Euro(s, p) [] s.k = "panelhole" -> PanelHole(s, p)
                 [] s.k = "bolt" -> Bolt(s, p[1], p[2], p[3]) [] s.k = "nut" -> Nut(s, p[1], p[2], p[3])
                 [] s.k = "hexhead" -> HexHead(p[1], p[2], p[3], s.h, s.top, s.bottom)
==================================================================================
