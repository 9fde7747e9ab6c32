-------------------------------- MODULE StlRead --------------------------------
(***************************************************************************)
(* Reading a counted stream of fixed size records from a reader that       *)
(* splits the bytes as it likes.  The environment hands out the remaining  *)
(* bytes in chunks of any size, empty ones included, and may announce the  *)
(* end of the stream together with the last chunk or after it.  The        *)
(* reader asks for what is missing of the current header or record.        *)
(***************************************************************************)
EXTENDS Naturals, TLC
CONSTANTS H, R,            \* header and record size in bytes
          MaxCount, MaxLen,
          Mutant
VARIABLES count,           \* records announced by the header
          len,             \* bytes in the stream
          left,            \* bytes the environment still has
          need,            \* bytes missing of the current unit
          got,             \* complete records read
          inHdr, res, idle
vars == <<count, len, left, need, got, inHdr, res, idle>>
Init == /\ count \in 1..MaxCount /\ len \in 0..MaxLen
        /\ left = len /\ need = H /\ got = 0 /\ inHdr = TRUE /\ res = "run" /\ idle = 0
Min(a, b) == IF a < b THEN a ELSE b
\* one Read of the underlying reader: k bytes, eof announced or not
Chunk(k, eof) ==
    /\ res = "run"
    /\ k <= Min(left, need)
    /\ eof => k = left                 \* the end may be announced only when there is nothing left
    /\ left = 0 => eof
    /\ k > 0 \/ eof \/ idle < 2        \* finitely many empty reads in a row
    /\ idle' = IF k = 0 THEN idle + 1 ELSE 0
    /\ left' = left - k
    /\ LET n == need - k
           full == n = 0 /\ ~(Mutant = "eofFirst" /\ eof) IN
       IF full THEN
            /\ inHdr' = FALSE
            /\ got' = IF inHdr THEN 0 ELSE got + 1
            /\ need' = R
            /\ res' = IF got' = count THEN "ok" ELSE "run"
       ELSE /\ need' = n /\ UNCHANGED <<inHdr, got>>
            /\ res' = IF eof THEN (IF Mutant = "shortOk" THEN "ok" ELSE "fail") ELSE "run"
    /\ UNCHANGED <<count, len>>
Next == \E k \in 0..(IF H > R THEN H ELSE R), eof \in BOOLEAN : Chunk(k, eof)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the outcome depends on the bytes alone, not on how they were split
Outcome == res # "run" => (res = "ok") = (len >= H + R * count)
CompleteModel == res = "ok" => got = count
Ends == <>(res # "run")
=============================================================================
