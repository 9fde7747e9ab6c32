------------------------------ MODULE SinksTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the real consumers against Sinks.            *)
(*                                                                         *)
(* The log is a sequence of runs: one "start" event carrying the script,   *)
(* one "read" event per ReadTriangles call the consumer made (buffer       *)
(* length b, triangles delivered k, error e), one "end" event with what    *)
(* came out.  "runs" lists the triangle numbers of the output as maximal   *)
(* intervals <<first, last>> in order of appearance, so a complete output  *)
(* is << <<1, n>> >>.  An event that no action explains is written to the  *)
(* reject file and the run is skipped.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV

Trace == ndJsonDeserialize(IOEnv.TRACE)
RejectFile == IOEnv.REJECT

VARIABLES script, rest, given, out, res, l, skip
tvars == <<script, rest, given, out, res, l, skip>>

S == INSTANCE Sinks WITH BufSizes <- {}, Scripts <- {}, Mutant <- "none"

Ev == Trace[l]
TInit == /\ script = <<>> /\ rest = <<>> /\ given = 0 /\ out = <<>> /\ res = "ok" /\ l = 1 /\ skip = FALSE

Start == /\ Ev.ev = "start"
         /\ script' = Ev.script /\ rest' = Ev.script /\ given' = 0 /\ out' = <<>> /\ res' = "run" /\ skip' = FALSE

\* one recorded read is the renderer's half of S!Read with the logged arguments
Read == /\ Ev.ev = "read" /\ ~skip /\ res = "run"
        /\ S!Deliver(Ev.b)
        /\ Ev.k = S!Delivered(Ev.b) /\ Ev.e = S!ErrOf(Ev.b)
        /\ res' = IF Ev.e = "nil" THEN "run" ELSE IF Ev.e = "eof" THEN "ok" ELSE "fail"
        /\ UNCHANGED <<script, out, skip>>

\* reading once more after the end is pointless but harmless
ReadAgain == /\ Ev.ev = "read" /\ ~skip /\ res # "run" /\ rest = <<>> /\ Ev.k = 0 /\ Ev.b > 0
             /\ UNCHANGED <<script, rest, given, out, res, skip>>

AllRuns(n) == IF n = 0 THEN <<>> ELSE << <<1, n>> >>

\* RenderAll: everything delivered, whatever the ending; the error is the renderer's own
EndRenderAll == /\ Ev.op = "renderall"
                /\ Ev.res = res /\ Ev.sameerr /\ Ev.runs = AllRuns(given)
\* an STL file: layout, count and content
StlOK(n) == Ev.size = 84 + 50 * n /\ Ev.count = n /\ Ev.hdrzero /\ Ev.badrec = 0 /\ Ev.runs = AllRuns(n)
EndCreateSTL == /\ Ev.op = "createstl"
                /\ \/ given = 0 /\ res = "ok"           \* an empty model may be refused
                   \/ res = "ok" /\ Ev.res = "ok" /\ StlOK(given)
                   \/ res = "fail" /\ Ev.res = "fail"
EndCreate3MF == /\ Ev.op = "create3mf"
                /\ \/ given = 0 /\ res = "ok"
                   \/ res = "ok" /\ Ev.res = "ok" /\ Ev.ntri = given /\ Ev.runs = AllRuns(given)
                   \/ res = "fail" /\ Ev.res = "fail"

End == /\ Ev.ev = "end" /\ ~skip
       /\ res # "run" /\ rest = <<>> /\ given = S!Total(script)
       /\ EndRenderAll \/ EndCreateSTL \/ EndCreate3MF
       /\ UNCHANGED <<script, rest, given, out, res, skip>>

Skip == /\ skip /\ Ev.ev # "start" /\ UNCHANGED <<script, rest, given, out, res, skip>>

Accept == Start \/ Read \/ ReadAgain \/ End \/ Skip
Reject == /\ CSVWrite("%1$s", <<ToJson([line |-> l, case |-> Ev.case, given |-> given, want |-> S!Total(script), res |-> res])>>, RejectFile)
          /\ skip' = TRUE /\ UNCHANGED <<script, rest, given, out, res>>

TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF ENABLED Accept THEN Accept ELSE Reject
TSpec == TInit /\ [][TNext]_tvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
