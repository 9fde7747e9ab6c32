------------------------------ MODULE OrientGen ------------------------------
(* Pairs of a base direction and a direction to orient it to: all small pairs, among    *)
(* them equal, parallel and opposite ones, and ones which miss the opposite narrowly.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
OutFile == IOEnv.OUT
N == atoi(IOEnv.N)
Small == {v \in (-N..N) \X (-N..N) \X (-N..N) : v # <<0, 0, 0>>}
Off == {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<3, 2, 1>>, <<-100, 7, 3000>>}
VARIABLE done
Init == done = FALSE
Put(a, b, f) == CSVWrite("%1$s", <<ToJson([a |-> a, b |-> b, f |-> f])>>, OutFile)
Next == /\ ~done /\ done' = TRUE
        /\ \A a \in Small : \A b \in Small : Put(a, b, b)
        /\ \A a \in {<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 2, 2>>, <<-1, 1, 0>>} : \A o \in Off : \A s \in {-100000000, -1000000, -1000, -150, -20, 100000000} :
             LET b == <<s * a[1] + o[1], s * a[2] + o[2], s * a[3] + o[3]>>
                 f == IF s < 0 THEN -1 ELSE 1 IN
             Put(a, b, IF s = -1000000 THEN <<b[1] \div 1000, b[2] \div 1000, b[3] \div 1000>> ELSE IF s \in -1000..-1 THEN <<b[1], b[2], b[3]>> ELSE <<f * a[1], f * a[2], f * a[3]>>)
Spec == Init /\ [][Next]_done
=============================================================================
