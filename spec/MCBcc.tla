--------------------------------- MODULE MCBcc ---------------------------------
(* Laws of the lattice mesh, for every set of inside nodes which a behaviour grows.        *)
EXTENDS Bcc, TLC
CONSTANT D, Most
Dims == <<3, 3, 2>>
VARIABLE In
Face3(t) == { t \ {p} : p \in t }
\* a node set as a tuple of positive orientation
Tuple(t) == CHOOSE s \in { <<a, b, c, d>> : a \in t, b \in t, c \in t, d \in t } : Cardinality({s[1], s[2], s[3], s[4]}) = 4 /\ Volume6(s[1], s[2], s[3], s[4]) > 0
Init == In = {}
Next == /\ Cardinality(In) < Most
        /\ \E n \in Nodes(D) : ~Hull(D, n) /\ In' = In \cup {n}
Spec == Init /\ [][Next]_In
K == Kept(D, In)
All == Tets(D)
\* the short way to the kept tetrahedra is the definition
KeptIsDefinition == K = { t \in All : t \cap In # {} }
AllAlike == \A t \in K : Cardinality(t) = 4 /\ Volume6(Tuple(t)[1], Tuple(t)[2], Tuple(t)[3], Tuple(t)[4]) = 4
\* whole faces, at most two to a face, and those on opposite sides
Conforming == \A t \in K : \A f \in Face3(t) :
                LET n == { u \in K : f \subseteq u } IN
                  /\ Cardinality(n) <= 2
                  /\ \A u \in n \ {t} : LET s == CHOOSE s \in [1..3 -> f] : Cardinality({s[1], s[2], s[3]}) = 3
                                            p == CHOOSE p \in t \ f : TRUE    q == CHOOSE q \in u \ f : TRUE
                                        IN Volume6(s[1], s[2], s[3], p) * Volume6(s[1], s[2], s[3], q) < 0
\* inside nodes away from the rim have all their tetrahedra, and their neighbours lie evenly around them
Whole == \A n \in In : ~Rim(D, n) =>
           LET s == { t \in K : n \in t }   v == UNION s \ {n} IN
             /\ Cardinality(s) = 24 /\ Cardinality(v) = 14
             /\ \A p \in v : Sub(Add(n, n), p) \in v
================================================================================
