------------------------------ MODULE ScrewGen ------------------------------
(* Screws of every thread with probes; a case is one screw. Run with -simulate. *)
EXTENDS Screw, TLC, Json, IOUtils, CSV, Randomization
OutFile == IOEnv.OUT
Cases == atoi(IOEnv.CASES)
Probes == atoi(IOEnv.PROBES)
VARIABLE step
R(lo, hi) == RandomElement(lo..hi)
Pick(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
SeqN(n, F(_)) == [i \in 1..n |-> F(i)]
Kinds == {"isoe", "isoi", "acme", "ansi", "plas", "utse", "utsi", "npt"}
\* <<z, k, Y, X, over, side>> and deep, with over = |z| - L/2
Probe(c) ==
  One({One({One({<<z, k, c.R + d, x, Abs(z) - c.L \div 2, IF Abs(z) * 2 > c.L THEN 1 ELSE IF Abs(z) * 2 = c.L \/ c.R + d = 0 THEN 0 ELSE Side(Shape(c.kind), x, c.P, d), Deep(Shape(c.kind), c.P, d, c.R + d, Abs(z) - c.L \div 2)>>
       : x \in {Place(z, k, c.P, c.starts)}})
       : z \in {One({CASE h <= 2 -> Pick({1, -1}) * (c.L \div 2 + R(-3, 3)) [] OTHER -> R(-(c.L * 6) \div 10, (c.L * 6) \div 10) : h \in {R(1, 10)}})}, k \in {R(-11, 12)}})
       : d \in {One({CASE h = 1 -> R(-c.R, 2 * c.P) [] h = 2 -> R(1, 4) [] OTHER -> R(-c.P, c.P \div 8) : h \in {R(1, 6)}})}})
Case(s) ==
  One({One({c @@ [pr |-> SeqN(Probes, LAMBDA i : Probe(c))]
     : c \in {One({[kind |-> kind, P |-> P, R |-> P * R(2, 9) + R(0, P), L |-> 2 * R(P \div 3, 4 * P), wrap |-> w, u |-> R(0, 2),
               starts |-> IF w = 0 THEN 1 ELSE Pick({1, 2, 3, 5, -1, -2, -4, 0}),
               taper |-> IF w = 0 THEN (IF kind = "npt" THEN 1 ELSE 0) ELSE Pick({0, 0, 1, 4, 12, -1, -6})] : w \in {R(0, 2)}})}})
     : kind \in {Pick(Kinds)}, P \in {Pick({24, 48, 120, 240, 480})}})
Knurl(s) ==
  One({One({c @@ [pr |-> SeqN(Probes, LAMBDA i : One({<<z, k, y, Place(z, k, c.P, c.starts), Abs(z) - c.L \div 2, Place(z, k, c.P, -c.starts), 0>>
                : z \in {R(-(c.L * 6) \div 10, (c.L * 6) \div 10)}, k \in {R(-11, 12)}, y \in {c.R + R(-10, c.H + 10)}}))]
     : c \in {One({[kind |-> "knurl", P |-> P, R |-> r, L |-> 2 * R(P \div 3, 4 * P), wrap |-> 0, u |-> R(0, 2), H |-> R(2, P \div 2), taper |-> 0,
                    tan |-> t, starts |-> (628319 * ((r * t) \div 8)) \div (P * 100000)] : r \in {8 * R(P \div 3, P)}, t \in {R(2, 16)}})}})
     : P \in {Pick({24, 48, 120})}})
\* thousandths of the fraction of a start which the starts of a knurl leave: near a whole number the count is open
Left(c) == ((628319 * ((c.R * c.tan) \div 8)) \div (c.P * 100)) % 1000
\* nominal pipe sizes (ASME B1.20.1): <<eighths of an inch, thousandths of its diameter, tenths of its
\* threads per inch, tenths of millimetres across the flats of its plug (B16.11)>>
Pipes == <<<<1, 405, 270, 112>>, <<2, 540, 180, 157>>, <<3, 675, 180, 175>>, <<4, 840, 140, 224>>, <<6, 1050, 140, 269>>, <<8, 1315, 115, 351>>,
           <<10, 1660, 115, 445>>, <<12, 1900, 115, 508>>, <<16, 2375, 115, 635>>, <<20, 2875, 80, 762>>, <<24, 3500, 80, 889>>, <<32, 4500, 80, 1173>>>>
Init == step = 0
Put(c) == CSVWrite("%1$s", <<ToJson(c)>>, OutFile)
Next == /\ step < Cases /\ step' = step + 1
        /\ IF step = 0 THEN Put([kind |-> "sizes", sizes |-> Pipes])
           ELSE IF R(1, 9) = 1 THEN \E c \in {Knurl(step)} : Left(c) \in 20..980 => Put(c)
           ELSE \E c \in {Case(step)} : Put(c)
Spec == Init /\ [][Next]_step
=============================================================================
