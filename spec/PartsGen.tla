-------------------------------- MODULE PartsGen --------------------------------
(* Parts with probes near their features; a case is one part. Run with -simulate.       *)
EXTENDS Parts, TLC, Json, IOUtils, CSV, Randomization, FiniteSets
OutFile == IOEnv.OUT
Cases == atoi(IOEnv.CASES)
Probes == atoi(IOEnv.PROBES)
VARIABLE step
R(lo, hi) == IF lo > hi THEN lo ELSE RandomElement(lo..hi)
Pick(X) == RandomElement(X)
One(X) == CHOOSE x \in X : TRUE
SeqN(n, F(_)) == [i \in 1..n |-> F(i)]
About(X) == Pick({-1, 1}) * Pick(X) + R(-3, 3)
Even(lo, hi) == 2 * R(lo, hi)
Maybe(x) == IF R(1, 5) = 1 THEN 0 ELSE x

StandoffOf(i) == One({[k |-> "standoff", H |-> H, D |-> D, hd |-> Pick({1, 1, 1, -1}) * Maybe(R(1, (H * 5) \div 4)), hD |-> Maybe(Even(1, (D * 2) \div 3)),
                       n |-> R(0, 8), Wh |-> R(2, (H * 5) \div 4), Wd |-> Even(2, 2 * D), Ww |-> Even(1, D \div 3)] : H \in {Even(6, 200)}, D \in {Even(4, 150)}})
StandoffProbe(s) ==
  One({CASE h = 1 -> <<R(-s.D, s.D), R(-s.D, s.D), About({Half(s.H), 0})>>
         [] h = 2 -> <<About({Half(s.D), Half(s.hD), 0}), R(-3, 3), R(-s.H, s.H)>>
         [] h = 3 -> <<R(0, s.D), R(-Half(s.hD), Half(s.hD)), Half(s.H) - s.hd + R(-3, 3)>>
         [] h = 4 -> <<R(0, Half(s.Wd)), About({Half(s.Ww)}), R(-Half(s.H), Half(s.H))>>
         [] OTHER -> One({<<x, R(-Half(s.Ww), Half(s.Ww)), (s.Wh - (2 * x * s.Wh) \div s.Wd) - Half(s.H) + R(-3, 3)>> : x \in {R(0, Half(s.Wd))}})
       : h \in {R(1, 5)}})
Pattern(i) == SeqN(R(0, 4), LAMBDA j : R(0, 1))
PanelOf(i) == One({[k |-> "panel", X |-> X, Y |-> Y, r |-> R(0, Half(Min(X, Y))), d |-> Even(0, 20), T |-> Even(0, 10),
                    margin |-> <<12 * R(0, 3), 12 * R(0, 3), 12 * R(0, 3), 12 * R(0, 3)>>, pattern |-> SeqN(4, Pattern)]
                   : X \in {24 * R(2, 12)}, Y \in {24 * R(2, 12)}})
\* around a hole or its place, along the rim, anywhere
HoleProbe(s) == IF HolesOf(s) = {} \/ s.d = 0 THEN <<R(-s.X, s.X), R(-s.Y, s.Y), 0>>
                ELSE One({<<c[1] + Pick({0, 0, -1, 1}) * Half(s.d) + R(-Half(s.d), Half(s.d)), c[2] + About({0, Half(s.d)}), R(-s.T, s.T)>> : c \in {Pick(HolesOf(s))}})
PlateProbe(s) == One({CASE h <= 3 -> HoleProbe(s)
                        [] h = 4 -> <<About({Half(s.X), Half(s.X) - s.r \div 4}), About({Half(s.Y), Half(s.Y) - s.r \div 4}), R(-s.T, s.T)>>
                        [] h = 5 -> <<About({Half(s.X)}), R(-Half(s.Y), Half(s.Y)), About({Half(s.T), 0})>>
                        [] OTHER -> <<R(-Half(s.X) - 5, Half(s.X) + 5), R(-Half(s.Y) - 5, Half(s.Y) + 5), About({Half(s.T), 0})>> : h \in {R(1, 6)}})
EuroOf(i) == [k |-> "euro", u |-> R(1, 6), hp |-> R(2, 24), r |-> R(0, 4) * 150, d |-> Maybe(Even(50, 400)), T |-> Maybe(Even(20, 300)), ridge |-> R(0, 1)]
RidgeProbe(s) == One({<<Pick({-1, 1}) * (x - Pick({0, s.T})) + R(-3, 3), Pick({-1, 1}) * (y - Pick({0, 0, 1800, R(0, 2 * y)})) + R(-3, 3), Pick({Half(s.T), 2 * s.T, s.T, 0}) + R(-3, 3)>>
                      : x \in {Half(EuroX(s.hp))}, y \in {Half(EuroY(s.u))}})
EuroProbe(s) == IF R(1, 3) = 1 THEN RidgeProbe(s) ELSE PlateProbe(EuroFlat(s))
PanelHoleOf(i) == [k |-> "panelhole", d |-> Even(1, 60), T |-> Even(1, 40), I |-> <<Maybe(Even(1, 20)), Maybe(Even(1, 20)), R(0, 100)>>, off |-> Maybe(R(1, 80)), turn |-> R(-11, 12)]
PanelHoleProbe(s) == One({CASE h = 1 -> <<R(-Half(s.d), Half(s.d)), About({Half(s.d), 0}), About({Half(s.T), 0})>>
                            [] h = 2 -> <<s.off + About({Half(s.I[1])}), R(-Half(s.I[2]), Half(s.I[2])), R(-Half(s.T), Half(s.T))>>
                            [] h = 3 -> <<s.off + R(-Half(s.I[1]), Half(s.I[1])), About({Half(s.I[2])}), R(-Half(s.T), Half(s.T))>>
                            [] OTHER -> <<s.off + R(-Half(s.I[1]), Half(s.I[1])), R(-Half(s.I[2]), Half(s.I[2])), Pick({Half(s.T), Half(s.T) - s.I[3]}) + R(-3, 3)>> : h \in {R(1, 4)}})
Pitches == {480, 960, 1920, 2400}
BoltOf(i) == One({One({[k |-> "bolt", thread |-> t, P |-> P, R |-> r, style |-> Pick({"hex", "knurl"}), shank |-> s, total |-> s + 2 * R(r, 3 * r)]
                       : r \in {R(2 * P + 1000, 8500)}, s \in {Maybe(R(500, 15000))}}) : P \in {Pick(Pitches)}, t \in {Pick({"isoe", "acme", "ansi", "plas", "utse"})}})
BoltProbe(s) ==
  One({CASE h = 1 -> <<Pick({9500, 10124, 11547, R(100, 13000)}) + R(-60, 60), R(-11, 12), R(-5200, 5200)>>
         [] h = 2 -> <<R(100, 12000), R(-11, 12), -4811 + R(-60, 1500)>>
         [] h = 3 -> <<s.R + R(-60, 60), R(-11, 12), R(0, s.shank + 4811)>>
         [] h = 4 -> <<R(100, s.R + 200), R(-11, 12), s.shank + 4811 + R(-900, 900)>>
         [] h = 5 -> <<s.R + R(-s.P, s.P \div 8), R(-11, 12), R(s.shank + 4811, s.total + 4811)>>
         [] h = 6 -> <<R(100, s.R + 200), R(-11, 12), s.total + 4811 + R(-s.R \div 2, 60)>>
         [] OTHER -> <<R(100, 14000), R(-11, 12), R(-6000, s.total + 6000)>> : h \in {R(1, 7)}})
NutOf(i) == One({[k |-> "nut", thread |-> Pick({"isoi", "isoe", "acme", "ansi", "plas", "utsi"}), P |-> P, R |-> R(2 * P + 1000, 8500), style |-> Pick({"hex", "knurl", "circular"})] : P \in {Pick(Pitches)}})
NutProbe(s) == One({CASE h = 1 -> <<Pick({9500, 10124, 11547, 12702, R(100, 13000)}) + R(-60, 60), R(-11, 12), R(-5200, 5200)>>
                      [] h = 2 -> <<R(100, 13000), R(-11, 12), Pick({-1, 1}) * (4811 + R(-1500, 60))>>
                      [] OTHER -> <<s.R + R(-s.P, s.P \div 4), R(-11, 12), R(-4900, 4900)>> : h \in {R(1, 3)}})
HexHeadOf(i) == [k |-> "hexhead", h |-> Even(500, 12000), top |-> R(0, 1), bottom |-> R(0, 1)]
HexHeadProbe(s) == One({CASE h = 1 -> <<Pick({9500, 10124, 11547, R(100, 13000)}) + R(-60, 60), R(-11, 12), R(-Half(s.h), Half(s.h))>>
                          [] OTHER -> <<R(100, 12500), R(-11, 12), Pick({-1, 1}) * (Half(s.h) + R(-1500, 60))>> : h \in {R(1, 2)}})
Probe(s) == CASE s.k = "standoff" -> StandoffProbe(s) [] s.k = "panel" -> PlateProbe(s) [] s.k = "euro" -> EuroProbe(s) [] s.k = "panelhole" -> PanelHoleProbe(s)
              [] s.k = "bolt" -> BoltProbe(s) [] s.k = "nut" -> NutProbe(s) [] s.k = "hexhead" -> HexHeadProbe(s)
Of(k) == CASE k = "standoff" -> StandoffOf(step) [] k = "panel" -> PanelOf(step) [] k = "euro" -> EuroOf(step) [] k = "panelhole" -> PanelHoleOf(step)
           [] k = "bolt" -> BoltOf(step) [] k = "nut" -> NutOf(step) [] k = "hexhead" -> HexHeadOf(step)
Case(s) == s @@ [unit |-> R(0, 2), pr |-> SeqN(Probes, LAMBDA i : One({<<p[1], p[2], p[3], Sides(s, p), IF s.k = "standoff" /\ s.n > 0 THEN R(0, s.n - 1) ELSE 0>> : p \in {Probe(s)}}))]
Init == step = 0
Put(c) == CSVWrite("%1$s", <<ToJson(c)>>, OutFile)
Next == /\ step < Cases /\ step' = step + 1
        /\ \E k \in {Pick({"standoff", "panel", "euro", "panelhole", "bolt", "nut", "hexhead"})} : \E s \in {Of(k)} : \E c \in {Case(s)} : Put(c)
Spec == Init /\ [][Next]_step
=================================================================================
