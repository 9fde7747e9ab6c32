------------------------------ MODULE StlReadGen ------------------------------
(* Streams and splits for the real STL reader, with the outcome StlRead states. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, Randomization, FiniteSets, SequencesExt
VARIABLE l
H == 84  R == 50
NSim == atoi(IOEnv.NSIM)
Bads == {"nanv", "infv", "nann", "infn", "deg12", "deg23", "deg31", "flip", "tilt"}
Harmless == {"", "flip", "tilt"}
\* a normal which contradicts its vertices is reported along with the triangles
Warned(c) == c.bad = "tilt" /\ c.badat < c.count
Bytes(c) == H + R * c.n - c.cut + c.extra
\* whether the announced records are all there, before and after looking at their content
Long(c) == Bytes(c) >= H + R * c.count
Want(c) == IF ~Long(c) THEN "fail"
           ELSE IF c.bad \notin Harmless /\ c.badat < c.count THEN "fail"
           ELSE IF c.count > c.n - ((c.cut + R - 1) \div R) THEN "fail"   \* appended or cut zero bytes are no triangles
           ELSE IF Warned(c) THEN "warn"
           ELSE "ok"
Out(c, i) == c @@ [case |-> i, want |-> Want(c), wantruns |-> IF Want(c) # "fail" THEN << <<c.first, c.first + c.count - 1>> >> ELSE <<>>]
Base(n) == [n |-> n, count |-> n, cut |-> 0, extra |-> 0, chunks |-> <<>>, eof |-> FALSE, bad |-> "", badat |-> 0, first |-> 1, exp |-> 0]
Emit(c, i) == CSVWrite("%1$s", <<ToJson(Out(c, i))>>, IOEnv.OUT)
\* every truncation point of a two triangle file, with and without early end-of-file
Trunc == { [Base(2) EXCEPT !.cut = k, !.eof = e, !.chunks = ch] : k \in 0..184, e \in BOOLEAN, ch \in { <<>>, <<13>> } }
\* every bad record kind at every position
BadSet == { [Base(3) EXCEPT !.bad = b, !.badat = i, !.count = k] : b \in Bads, i \in 0..2, k \in 1..3 }
Sizes == {0, 1, 2, 3, 7, 25, 49, 50, 51, 83, 84, 85, 100, 133, 134, 4096}
Pats == { <<a>> : a \in Sizes \ {0} } \cup { <<a, b>> : a \in Sizes, b \in Sizes \ {0} }
        \cup RandomSubset(300, { <<a, b, c>> : a \in Sizes, b \in Sizes, c \in Sizes \ {0} })
Whole == { [Base(n) EXCEPT !.chunks = p, !.eof = e, !.first = f] : n \in {1, 2, 3, 7, 40}, p \in Pats, e \in BOOLEAN, f \in {1, 500} }
Mixed == { [n |-> n, count |-> k, cut |-> x, extra |-> y, chunks |-> p, eof |-> e, bad |-> "", badat |-> 0, first |-> 1, exp |-> 0] :
             n \in {1, 2, 5}, k \in 1..6, x \in {0, 1, 49, 50}, y \in {0, 1, 50, 200}, p \in RandomSubset(12, Pats), e \in BOOLEAN }
\* models drawn in other units: small parts in metres, large ones in micrometres
Scaled == { [Base(n) EXCEPT !.first = f, !.exp = x, !.bad = b, !.badat = n \div 2] :
              n \in {1, 2, 5, 33}, f \in {1, 40, 9000}, x \in {-32, -27, -20, -17, -13, -10, -3, 5, 10, 30, 60}, b \in {"", "flip", "tilt", "deg12"} }
\* more triangles than 16 bits count
Huge == { [Base(n) EXCEPT !.chunks = p, !.cut = x] : n \in {65535, 65536, 65537, 131073}, p \in { <<>>, <<4096>> }, x \in {0, 1} }
All == Huge \cup Trunc \cup BadSet \cup Scaled \cup RandomSubset(NSim, Whole) \cup RandomSubset(NSim, { c \in Mixed : c.cut = 0 \/ c.extra = 0 })
Init == l = 0
Next == /\ l = 0 /\ l' = 1
        /\ LET q == SetToSeq(All) IN \A i \in 1..Len(q) : Emit(q[i], i)
Spec == Init /\ [][Next]_l
=============================================================================
