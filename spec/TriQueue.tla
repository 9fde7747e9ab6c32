-------------------------------- MODULE TriQueue --------------------------------
(* The triangle buffer is a queue: all histories of writes and reads of up to MaxK        *)
(* triangles each, with the answers they must give. After every write the caller uses its *)
(* slice again, and what was read stays the reader's.                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
OutFile == IOEnv.OUT
Depth == atoi(IOEnv.DEPTH)
MaxK == 3
VARIABLES q, n, log
vars == <<q, n, log>>
Init == q = <<>> /\ n = 0 /\ log = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Write(k) == LET new == [i \in 1..k |-> n + i] IN
            /\ q' = q \o new /\ n' = n + k
            /\ log' = Append(log, [op |-> "w", k |-> k, ids |-> new, len |-> Len(q'), got |-> k])
Read(k) == LET m == Min(k, Len(q)) IN
           /\ q' = SubSeq(q, m + 1, Len(q)) /\ n' = n
           /\ log' = Append(log, [op |-> "r", k |-> k, ids |-> SubSeq(q, 1, m), len |-> Len(q'), got |-> m])
Done == Len(log) = Depth
Next == IF Done THEN CSVWrite("%1$s", <<ToJson([log |-> log])>>, OutFile) /\ UNCHANGED vars
        ELSE \E k \in 0..MaxK : Write(k) \/ Read(k)
Spec == Init /\ [][Next]_vars
\* what is in the queue are the latest triangles in order, and reads gave the earlier ones in order
RECURSIVE Given(_)
Given(l) == IF l = <<>> THEN <<>> ELSE (IF l[1].op = "r" THEN l[1].ids ELSE <<>>) \o Given(Tail(l))
Fifo == Given(log) \o q = [i \in 1..n |-> i]
=================================================================================
