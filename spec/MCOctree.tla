------------------------------- MODULE MCOctree -------------------------------
EXTENDS OctreeStream
Lf(i, t) == [id |-> i, t |-> t, kids |-> <<>>]
In(i, k) == [id |-> i, t |-> 0, kids |-> k]
T == 0..MaxTri
MCRoots == { In(9, <<Lf(1, a), Lf(2, b), Lf(3, c)>>) : a \in T, b \in T, c \in T }
      \cup { In(9, <<In(8, <<Lf(1, a), Lf(2, b)>>), In(7, <<Lf(3, c), Lf(4, d)>>)>>) : a \in T, b \in T, c \in T, d \in {MaxTri} }
      \cup { In(9, <<>>) }
View == <<root, nw, todo, spill, phase, len, dst, base, ws, delivered, dup, last>>
=============================================================================
