-------------------------------- MODULE MCParts --------------------------------
(* Changing a parameter of a part changes the side of no probe which lies outside both the *)
(* old and the new feature which the parameter names; parts have their symmetries.          *)
EXTENDS Parts, TLC
VARIABLES part, probe, named
vars == <<part, probe, named>>
Standoffs == { [k |-> "standoff", H |-> 12, D |-> 8, hd |-> hd, hD |-> hD, n |-> n, Wh |-> wh, Wd |-> wd, Ww |-> ww] :
                 hd \in {-3, 0, 5, 20}, hD \in {0, 4, 6}, n \in {0, 1, 3, 4}, wh \in {6, 14}, wd \in {6, 20}, ww \in {2, 4} }
Panels == { [k |-> "panel", X |-> 24, Y |-> 36, r |-> r, d |-> d, T |-> t, margin |-> m, pattern |-> p] :
              r \in {0, 6}, d \in {0, 4, 6}, t \in {0, 4}, m \in {<<6, 6, 6, 6>>, <<3, 6, 6, 6>>},
              p \in {<<<<1, 0, 1>>, <<>>, <<0>>, <<1>>>>, <<<<1, 0, 1>>, <<1, 1>>, <<0>>, <<1>>>>, <<<<0>>, <<>>, <<>>, <<>>>>} }
Spots == { <<x, y, z>> : x \in {-11, -2, 0, 1, 3, 5, 12}, y \in {-15, -6, 0, 2, 13}, z \in {-7, -4, 0, 3, 6} }
Init == part \in Standoffs \cup Panels /\ probe \in Spots /\ named = "none"
Change(f, v) == part' = [part EXCEPT ![f] = v] /\ named' = f /\ UNCHANGED probe
Next == /\ named = "none"
        /\ IF part.k = "standoff"
           THEN \/ \E v \in {-3, 0, 5, 20} : Change("hd", v)
                \/ \E v \in {0, 4, 6} : Change("hD", v)
                \/ \E v \in {6, 14} : Change("Wh", v)
                \/ \E v \in {6, 20} : Change("Wd", v)
                \/ \E v \in {2, 4} : Change("Ww", v)
                \/ \E v \in {2, 6} : Change("D", v)
           ELSE \/ \E v \in {0, 4, 6} : Change("d", v)
                \/ \E v \in {0, 6} : Change("r", v)
                \/ \E v \in {<<6, 6, 6, 6>>, <<3, 6, 6, 6>>} : Change("margin", v)
Spec == Init /\ [][Next]_vars
FeatureOf(s, p, f) == CASE f \in {"hd", "hD"} -> Hole(s, p) [] f \in {"Wh", "Wd", "Ww"} -> Web(s, p) [] f = "D" -> Pillar(s, p)
                       [] f \in {"d", "margin"} -> InHoles(s, p) [] f = "r" -> -Plate(p[1], p[2], Half(s.X), Half(s.Y), s.r)
OnlyNamed == [][Sides(part', probe) # Sides(part, probe) => FeatureOf(part, probe, named') < 1 \/ FeatureOf(part', probe, named') < 1]_vars
Whole == Sides(part, probe) \in {-1, 0, 1}
\* a web is as thick on both sides; a bare plate looks the same from the other side
Mirrored == Sides(part, <<probe[1], -probe[2], probe[3]>>) = Sides(part, probe) \/ part.k = "panel"
\* nothing reaches beyond the stated sizes
Within == Sides(part, probe) = -1 =>
            IF part.k = "panel" THEN Abs(probe[1]) < Half(part.X) /\ Abs(probe[2]) < Half(part.Y) /\ (part.T = 0 \/ Abs(probe[3]) < Half(part.T))
            ELSE probe[3] > -Half(part.H) /\ (probe[3] < Half(part.H) \/ part.hd < 0) /\ Abs(probe[1]) < Max(Half(part.D), Max(Half(part.Wd), Half(part.hD)))
================================================================================
