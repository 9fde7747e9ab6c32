------------------------------- MODULE SinksGen -------------------------------
(* Renderer scripts for the real code: every script of up to three steps over  *)
(* small sizes, and scripts over sizes around powers of two and the multiples  *)
(* of 50 bytes in common buffer lengths, where batching code has its edges.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV, Randomization, FiniteSets
OutFile == IOEnv.OUT
NBig == atoi(IOEnv.NBIG)
SmallN == atoi(IOEnv.SMALLN)
Small == 0..SmallN
Big == {0, 1, 2, 5, 7, 326, 327, 654, 655, 656, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5000,
        8191, 8193, 16383, 16384, 16385, 20000, 32767, 32768, 32769}
St(N) == [n : N, e : {"nil"}]
En(N) == [n : N, e : {"eof", "fail"}]
Scr(N, k) == { s \o <<x>> : s \in [1..k -> St(N)], x \in En(N) }
SmallScripts == Scr(Small, 0) \cup Scr(Small, 1) \cup Scr(Small, 2)
BigScripts == Scr(Big, 0) \cup RandomSubset(NBig, Scr(Big, 1)) \cup RandomSubset(NBig, Scr(Big, 2))
\* more triangles than 16 bits count
Huge == { <<[n |-> 65536, e |-> "nil"], [n |-> 0, e |-> "eof"]>>, <<[n |-> 40000, e |-> "nil"], [n |-> 30000, e |-> "nil"], [n |-> 1, e |-> "eof"]>>,
          <<[n |-> 140001, e |-> "eof"]>>, <<[n |-> 70000, e |-> "fail"]>> }
VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A s \in SmallScripts : CSVWrite("%1$s", <<ToJson([script |-> s, kind |-> "small"])>>, OutFile)
        /\ \A s \in BigScripts \cup Huge : CSVWrite("%1$s", <<ToJson([script |-> s, kind |-> "big"])>>, OutFile)
Spec == Init /\ [][Next]_done
=============================================================================
