------------------------------- MODULE FaultsGen -------------------------------
(***************************************************************************)
(* Where an export can fail, and what must be reported: a destination that *)
(* takes cap bytes and then refuses, shortens or drops a write; a missing  *)
(* or unusable destination; a renderer that fails after cap triangles with *)
(* or without data in the failing read.  The outcome is a function of the  *)
(* bytes the complete file needs and of whether the renderer ends well.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
VARIABLE l
MaxN == atoi(IOEnv.MAXN)
Stride == atoi(IOEnv.STRIDE)
StlSize(n) == 84 + 50 * n
Fits(cap, n) == IF cap >= StlSize(n) THEN "ok" ELSE "fail"
Write == { [op |-> "writestl", n |-> n, cap |-> c, mode |-> m, want |-> Fits(c, n)] :
             n \in 1..MaxN, c \in 0..(StlSize(MaxN) + 2), m \in {"err", "short", "zero"} }
         \cup { [op |-> "writestl", n |-> 700, cap |-> c, mode |-> m, want |-> Fits(c, 700)] :
             c \in {84, 4096, 32767, 32768, 35000, 35083, 35084, 40000}, m \in {"err", "short"} }
         \cup { [op |-> "writestl", n |-> 0, cap |-> 1000, mode |-> "err", want |-> "fail"] }
Create == { [op |-> "createstl", n |-> n, cap |-> c, mode |-> "limit", want |-> Fits(c, n)] :
             n \in 1..MaxN, c \in { x \in 0..(StlSize(MaxN) + 2) : x % Stride = 0 \/ x \in {83, 84, 85, 133, 134, 135, 183, 184, 185} } }
         \cup { [op |-> "createstl", n |-> 40000, cap |-> c, mode |-> "limit", want |-> Fits(c, 40000)] :
             c \in {84, 32768, 819200, 1000000, 2000083, 2000084} }
MF == { [op |-> "create3mf", n |-> n, cap |-> c, mode |-> "limit", want |-> "fail"] :
             n \in 1..MaxN, c \in { x \in 0..1000 : x % (40 * Stride) = 0 \/ x \in {1, 500, 900, 950, 980, 990, 999, 1000} } }
Other == { [op |-> o, n |-> 2, cap |-> 1, mode |-> m, want |-> IF m = "none" THEN "ok" ELSE "fail"] :
             o \in {"createstl", "create3mf"}, m \in {"nodir", "isdir", "devfull", "rfail", "rfail0", "none"} }
         \cup { [op |-> o, n |-> 2, cap |-> c, mode |-> m, want |-> "fail"] :
             o \in {"createstl", "create3mf"}, m \in {"rfail", "rfail0"}, c \in {0, 655, 1024, 16384, 17000} }
All == Write \cup Create \cup MF \cup Other
Init == l = 0
Next == l = 0 /\ l' = 1 /\ \A c \in All : CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_l
=============================================================================
