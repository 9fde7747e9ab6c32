--------------------------------- MODULE Screw ---------------------------------
(* A screw is its thread profile swept along a helix. A point is given by its height z,   *)
(* the 24th k of a turn counter-clockwise from the x-axis and its reach Y, its distance    *)
(* from the axis plus what the taper has taken away at its height. Its place X along the   *)
(* profile is its height less the rise of the helix, within half a pitch P of a crest.     *)
EXTENDS Integers, Sequences
Wrap(n, P) == ((n + P \div 2) % P) - P \div 2
Place(z, k, P, starts) == Wrap(z - ((P * starts * k) \div 24), P)         \* 24 divides P

---------------------------------------------------------------------------------
(* Outlines of the standard threads: how far the material reaches beyond the nominal      *)
(* radius at place x of a pitch from -5000 to 5000, both in ten-thousandths of the pitch.  *)
(* Straight lines between corners; a fillet leaves the outline between a corner and the    *)
(* chord which cuts it off.                                                                *)
\* ISO 68-1: 60 degrees, H = 8660, crest flat P/8, root at 7H/8 with its fillet of P/8 flats
IsoExt == <<<<-5000, -7578>>, <<-625, 0>>, <<625, 0>>, <<5000, -7578>>>>
\* internal: minor diameter at 5H/8 with flats of P/4, the root H/8 beyond with its fillet
IsoInt == <<<<-5000, -5413>>, <<-3750, -5413>>, <<0, 1083>>, <<3750, -5413>>, <<5000, -5413>>>>
\* 29 degrees, half the pitch deep, equal widths at half depth
AcmeOut == <<<<-5000, -5000>>, <<-3147, -5000>>, <<-1853, 0>>, <<1853, 0>>, <<3147, -5000>>, <<5000, -5000>>>>
\* 45 and 7 degrees
ButtressOut == <<<<-5000, 0>>, <<-3547, 0>>, <<3906, -7453>>, <<4822, 0>>, <<5000, 0>>>>
Outlines == [isoe |-> IsoExt, isoi |-> IsoInt, acme |-> AcmeOut, ansi |-> ButtressOut, plas |-> ButtressOut]
\* fillets as chords <<x1, y1, x2, y2>>
Fillets == [isoe |-> <<<<-6250, -5413, -3750, -5413>>, <<3750, -5413, 6250, -5413>>>>,
            isoi |-> <<<<-625, 0, 625, 0>>>>, acme |-> <<>>,
            ansi |-> <<<<2871, -6418, 4085, -6000>>>>,
            plas |-> <<<<1732, -5279, 4281, -4401>>, <<-4168, 0, -3107, -439>>, <<4768, -439, 5264, 0>>>>]
On(x, x1, y1, x2, y2) == y1 + ((y2 - y1) * (x - x1)) \div (x2 - x1)
Sharp(t, x) == LET c == Outlines[t]  i == CHOOSE i \in 1..Len(c) - 1 : c[i][1] <= x /\ x <= c[i + 1][1]
               IN On(x, c[i][1], c[i][2], c[i + 1][1], c[i + 1][2])
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Abs(x) == IF x < 0 THEN -x ELSE x
\* the two ISO fillets are known as arcs; five facets leave them by a fiftieth of the radius
Arc(t, x) == CASE t = "isoe" /\ Abs(x) > 3750 -> LET a == -4691 - Root(1443 * 1443 - (5000 - Abs(x)) * (5000 - Abs(x)), 0, 1444) IN <<a, a + 33>>
               [] t = "isoi" /\ Abs(x) < 625 -> LET a == -361 + Root(722 * 722 - x * x, 0, 723) IN <<a - 17, a>>
               [] OTHER -> <<>>
Reach(t, x) ==
  LET s == Sharp(t, x)
      f == { i \in 1..Len(Fillets[t]) : Fillets[t][i][1] < x /\ x < Fillets[t][i][3] }
      c == IF f = {} THEN s ELSE LET k == Fillets[t][CHOOSE i \in f : TRUE] IN On(x, k[1], k[2], k[3], k[4])
  IN IF Arc(t, x) # <<>> THEN Arc(t, x) ELSE IF s < c THEN <<s, c>> ELSE <<c, s>>
Near == 12                          \* what rounding may amount to
\* whether a point at reach Y beyond the nominal radius is inside (-1), outside (1) or too near to tell (0)
Side(t, x, P, beyond) == LET r == Reach(t, (x * 10000) \div P)
                             y == (beyond * 10000) \div P
                         IN IF y < r[1] - Near THEN -1 ELSE IF y > r[2] + Near THEN 1 ELSE 0
\* how deep in the material a point below the roots is at least: there is no surface between turns, only
\* the axis (where the profile ends), the outline above and the ends of the screw
RECURSIVE Lowest(_, _)
Lowest(c, i) == IF i = 1 THEN c[1][2] ELSE LET m == Lowest(c, i - 1) IN IF c[i][2] < m THEN c[i][2] ELSE m
Deep(t, P, beyond, y, over) == LET root == (Lowest(Outlines[t], Len(Outlines[t])) * P) \div 10000 - 2
                                   m(a, b) == IF a < b THEN a ELSE b
                               IN m(m(root - beyond, y - 1), m(P \div 2 - 1, -over))
\* UTS threads are metric in shape, a pipe thread is an internal one drawn out
Shape(kind) == CASE kind \in {"utse"} -> "isoe" [] kind \in {"utsi", "npt"} -> "isoi" [] OTHER -> kind
=================================================================================
