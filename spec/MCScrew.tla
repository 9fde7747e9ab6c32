------------------------------- MODULE MCScrew -------------------------------
EXTENDS Screw, TLC
VARIABLES z, k, starts, t
vars == <<z, k, starts, t>>
P == 48
Init == z \in -60..60 /\ k \in {-11, -5, 0, 1, 12} /\ starts \in -3..3 /\ t = "isoe"
Next == /\ UNCHANGED <<z, starts>>
        /\ \/ k' \in -11..12 /\ UNCHANGED t
           \/ t' \in DOMAIN Outlines /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
X == Place(z, k, P, starts)
WithinPitch == X >= -P \div 2 /\ X < P \div 2
UpOnePitch == Place(z + P, k, P, starts) = X
OnceAround == Place(z, k + 24, P, starts) = X
Lead == Place(z + P * starts, k + 24, P, starts) = X /\ Place(z + 2 * starts, k + 1, P, starts) = X
\* turning a screw of the other hand the other way round
Handed == Place(z, -k, P, -starts) = X
Ordered == LET r == Reach(t, (X * 10000) \div P) IN r[1] <= r[2] /\ r[2] <= 400 /\ r[1] >= -7700
\* the profile closes at the ends of its pitch
Repeats == LET a == Reach(t, -5000)  b == Reach(t, 5000) IN a[1] <= b[2] + 2 /\ b[1] <= a[2] + 2
==============================================================================
