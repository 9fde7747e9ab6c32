------------------------------- MODULE IntVec -------------------------------
(* Integer vectors: a script is a vector and the steps applied to it, each a vector or *)
(* a number to add or subtract, or a trip to real numbers and back. The script with    *)
(* the vector after every step is written out.                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
OutFile == IOEnv.OUT
Depth == atoi(IOEnv.DEPTH)
Vals == {-7, 0, 3}
Vecs == {<<1, -2, 5>>, <<-4, 9, 0>>, <<0, 0, -6>>}
VARIABLES v, start, steps
vars == <<v, start, steps>>
Init == steps = <<>> /\ v \in {<<2, -3, 7>>, <<0, 1, -1>>, <<-100000, 1000000, 8>>} /\ start = v
Log(k, a, w) == v' = w /\ start' = start /\ steps' = Append(steps, [k |-> k, a |-> a, v |-> w])
Add == \E a \in Vecs : Log("add", a, [i \in 1..3 |-> v[i] + a[i]])
AddS == \E c \in Vals : Log("adds", <<c, c, c>>, [i \in 1..3 |-> v[i] + c])
SubS == \E c \in Vals : Log("subs", <<c, c, c>>, [i \in 1..3 |-> v[i] - c])
Trip == \E k \in {"trip", "tov3"} : Log(k, <<0, 0, 0>>, v)
Next == Len(steps) < Depth /\ (Add \/ AddS \/ SubS \/ Trip)
        /\ (Len(steps') = Depth => CSVWrite("%1$s", <<ToJson([steps |-> steps', from |-> start])>>, OutFile))
Spec == Init /\ [][Next]_vars
Delta(t, i) == IF t.k = "subs" THEN -t.a[i] ELSE t.a[i]
RECURSIVE Total(_, _)
Total(n, i) == IF n = 0 THEN 0 ELSE Total(n - 1, i) + Delta(steps[n], i)
\* where the vector is depends on the sum of the steps alone
Sum == \A i \in 1..3 : v[i] = start[i] + Total(Len(steps), i)
=============================================================================
