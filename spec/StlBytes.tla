------------------------------- MODULE StlBytes -------------------------------
(* Generates short triangle lists, and checks the bytes that the real code      *)
(* wrote for them against StlCodec.                                             *)
EXTENDS StlCodec, TLC, Json, IOUtils, CSV
VARIABLE l
\* -------- generation
Ids == {1, 2, 3, 4, 5, 6, 7, 8, 16, 47, 48, 49, 96, 97, 776, 3977, 8632, 8633, 100008, 262151}
Few == {3, 8, 49, 8639}
MaxN == atoi(IOEnv.MAXN)
Lists == { <<i>> : i \in Ids } \cup { <<i, j>> : i \in Few, j \in Few }
         \cup (IF MaxN > 2 THEN { <<i, j, k>> : i \in Ids, j \in Few, k \in Few } ELSE {})
GInit == l = 0
GNext == l = 0 /\ l' = 1 /\ \A s \in Lists : CSVWrite("%1$s", <<ToJson([ids |-> s])>>, IOEnv.OUT)
GSpec == GInit /\ [][GNext]_l
\* -------- validation
Trace == ndJsonDeserialize(IOEnv.TRACE)
FirstDiff(f, g) == IF Len(f) # Len(g) THEN 0 ELSE CHOOSE i \in 1..Len(f) : ~SameByte(f, g, i) /\ \A j \in 1..(i-1) : SameByte(f, g, j)
TInit == l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l]
                ok == e.res = "ok" /\ e.panic = "" /\ SameFile(File(e.ids), e.bytes) IN
            IF ok THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([line |-> l, res |-> e.res, panic |-> e.panic,
               len |-> Len(e.bytes), want |-> 84 + 50 * Len(e.ids),
               at |-> IF e.res = "ok" /\ Len(e.bytes) = 84 + 50 * Len(e.ids) THEN FirstDiff(File(e.ids), e.bytes) ELSE 0])>>, IOEnv.REJECT)
TSpec == TInit /\ [][TNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
