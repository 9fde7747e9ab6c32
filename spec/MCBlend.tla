------------------------------- MODULE MCBlend -------------------------------
(* Laws of the blending functions, over every pair of values of a grid. *)
EXTENDS Blend
VARIABLES fn, a, b
KS == {1, 3, 1000, 2500, 4000}
Vs == {1000 * i : i \in -5..5} \cup {1, -1, 999, 1001, 3, -2999}
Fns == {[f |-> "poly", n |-> n, k |-> k] : n \in 0..5, k \in KS} \cup {[f |-> "round", n |-> 0, k |-> k] : k \in KS}
       \cup {[f |-> "exp", n |-> 0, k |-> 1000], Std}
Init == fn \in Fns /\ a \in Vs /\ b \in Vs
Next == UNCHANGED <<fn, a, b>>
Spec == Init /\ [][Next]_<<fn, a, b>>
m == BMin(a, b)
v == FMin(fn, a, b)
Ordered == v[1] <= v[2] /\ v[2] - v[1] <= (IF fn.f = "exp" THEN 700 ELSE 5)
Symmetric == v = FMin(fn, b, a)
NeverAbove == v[1] <= m /\ (fn.f # "poly" \/ fn.n = 0 \/ v[2] <= m)
PlainWhenFar == /\ fn.f = "poly" /\ fn.n >= 1 /\ BAbs(a - b) >= fn.k => v = <<m, m>>
                /\ fn.f = "round" /\ BMax(a, b) >= fn.k => v[1] <= m /\ v[2] >= m /\ v[2] - v[1] <= 2
Monotone == /\ FMin(fn, a, b)[1] <= FMin(fn, a + 1000, b)[1] + 5
            /\ FMin(fn, a, b)[2] <= FMin(fn, a + 1000, b)[2] + 5
Dual == fn.f = "poly" /\ fn.n >= 2 => FMax(fn, a, b) = <<-FMin(fn, -a, -b)[2], -FMin(fn, -a, -b)[1]>>
\* the largest amount, at equal values, is k / 2n
Largest == fn.f = "poly" /\ fn.n >= 2 /\ a = b => v[1] <= m - fn.k \div (2 * fn.n) /\ v[2] >= m - fn.k \div (2 * fn.n) - 1
=============================================================================
