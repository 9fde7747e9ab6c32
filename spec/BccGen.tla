-------------------------------- MODULE BccGen --------------------------------
(* Node sets for lattice meshes, and shapes with probes. Run with -simulate.             *)
EXTENDS Bcc, TLC, Json, IOUtils, CSV, Randomization
OutFile == IOEnv.OUT
Cases == atoi(IOEnv.CASES)
Probes == atoi(IOEnv.PROBES)
Side == atoi(IOEnv.SIDE)
VARIABLE step
R(lo, hi) == RandomElement(lo..hi)
Pick(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
SeqN(n, F(_)) == [i \in 1..n |-> F(i)]
\* --- lattices: the nodes of the hull are outside, any others inside
InnerNodes(D) == { n \in Nodes(D) : ~Hull(D, n) }
Sq(x) == x * x
Lattice(s) ==
  One({One({[k |-> "lattice", D |-> D, pose |-> R(0, 999), neg |->
        CASE h = 1 -> N
          [] h = 2 -> One({{ n \in N : Sq(n[1] - c[1]) + Sq(n[2] - c[2]) + Sq(n[3] - c[3]) <= q } \cup {c} : c \in {Pick(N)}, q \in {R(1, 40)}})
          [] h = 3 -> One({{ n \in N : n[d] <= a } : d \in {R(1, 3)}, a \in {R(1, 5)}})
          [] OTHER -> RandomSubset(One({IF x > Cardinality(N) THEN Cardinality(N) ELSE x : x \in {R(1, R(3, 60))}}), N)]
      : N \in {InnerNodes(D)}, h \in {R(1, 8)}}) : D \in {<<R(3, Side), R(3, Side), R(3, Side)>>}})
\* --- shapes: balls and boxes, united, less another ball; probes in a frame of integer coordinates.
\* Depth(p, q, m): p is in the part q by at least m; Beyond(p, q, m): p is at least m away from it
Depth(p, q, m) == IF q.k = "ball" THEN q.r >= m /\ Sq(p[1] - q.c[1]) + Sq(p[2] - q.c[2]) + Sq(p[3] - q.c[3]) <= Sq(q.r - m)
                  ELSE \A d \in 1..3 : p[d] - q.lo[d] >= m /\ q.hi[d] - p[d] >= m
Gap(x, lo, hi) == IF x < lo THEN lo - x ELSE IF x > hi THEN x - hi ELSE 0
Beyond(p, q, m) == IF q.k = "ball" THEN Sq(p[1] - q.c[1]) + Sq(p[2] - q.c[2]) + Sq(p[3] - q.c[3]) >= Sq(q.r + m)
                   ELSE Sq(Gap(p[1], q.lo[1], q.hi[1])) + Sq(Gap(p[2], q.lo[2], q.hi[2])) + Sq(Gap(p[3], q.lo[3], q.hi[3])) >= Sq(m)
Part(s) == One({IF h = 1 THEN [k |-> "ball", c |-> c, r |-> Pick({20, 30, 37, 50, 64})]
                ELSE [k |-> "box", lo |-> c, hi |-> Add(c, <<R(12, 70), R(12, 70), R(12, 70)>>)] : h \in {R(1, 2)}, c \in {<<R(-40, 40), R(-40, 40), R(-40, 40)>>}})
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
LowOf(q, d) == IF q.k = "ball" THEN q.c[d] - q.r ELSE q.lo[d]
HighOf(q, d) == IF q.k = "ball" THEN q.c[d] + q.r ELSE q.hi[d]
Class(p, parts, cut, res) ==                                          \* in halves of res
  CASE \E i \in 1..Len(parts) : Depth(p, parts[i], (3 * res + 1) \div 2) /\ \A j \in 1..Len(cut) : Beyond(p, cut[j], (3 * res + 1) \div 2) -> 1
    [] \A i \in 1..Len(parts) : Beyond(p, parts[i], 3 * res) -> 0
    [] OTHER -> 2
Heart(q) == IF q.k = "ball" THEN q.c ELSE [d \in 1..3 |-> (q.lo[d] + q.hi[d]) \div 2]
Inside(p, parts, cut) == (\E i \in 1..Len(parts) : Depth(p, parts[i], 0)) /\ (\A j \in 1..Len(cut) : Beyond(p, cut[j], 0))
Shape(s) ==
  One({One({One({[k |-> "shape", parts |-> parts, cut |-> cut, lo |-> lo, hi |-> hi, res |-> res, pose |-> R(0, 999),
          pr |-> SeqN(Probes, LAMBDA i : One({<<p[1], p[2], p[3], Class(p, parts, cut, res)>>
                 : p \in {IF R(1, 2) = 1 THEN Add(Heart(Pick({ parts[j] : j \in 1..Len(parts) })), <<R(-12, 12), R(-12, 12), R(-12, 12)>>) ELSE IF R(1, 3) = 1 THEN <<R(lo[1], hi[1]), R(lo[2], hi[2]), R(lo[3], hi[3])>> ELSE <<R(lo[1] - 5 * res, hi[1] + 5 * res), R(lo[2] - 5 * res, hi[2] + 5 * res), R(lo[3] - 5 * res, hi[3] + 5 * res)>>}}))]
       : res \in {One({IF x > m \div 3 THEN m \div 3 ELSE x : x \in {MaxOf({ hi[d] - lo[d] : d \in 1..3 }) \div R(Side, 2 * Side)}, m \in {MinOf({ hi[d] - lo[d] : d \in 1..3 })}})}})
       : lo \in {[d \in 1..3 |-> MinOf({ LowOf(parts[i], d) : i \in 1..Len(parts) })]}, hi \in {[d \in 1..3 |-> MaxOf({ HighOf(parts[i], d) : i \in 1..Len(parts) })]}})
       : parts \in {SeqN(R(1, 3), LAMBDA i : Part(i))}, cut \in {SeqN(Pick({0, 0, 1}), LAMBDA i : Part(i))}})
Init == step = 0
Put(c) == CSVWrite("%1$s", <<ToJson(c)>>, OutFile)
Next == /\ step < Cases /\ step' = step + 1
        /\ IF R(1, 2) = 1 THEN \E c \in {Lattice(step)} : Put(c) ELSE \E c \in {Shape(step)} : Put(c)
Spec == Init /\ [][Next]_step
===============================================================================
