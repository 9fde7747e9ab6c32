------------------------------ MODULE StreamTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the real octree renderer against the         *)
(* contract of OctreeStream.  A run is                                     *)
(*   start  (total: how many triangles the model has, numbered 1..total)   *)
(*   read   (len of the buffer, n and e returned, numbers of the triangles *)
(*           delivered; 0 is one which is not of the model)                *)
(*   empty  (count consecutive reads which delivered nothing, without eof) *)
(*   end                                                                   *)
(* "endless", "hang" and "panic" events are explained by no action.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
RejectFile == IOEnv.REJECT
VARIABLES total, first, count, phase, l, skip
tvars == <<total, first, count, phase, l, skip>>
Ev == Trace[l]
TInit == total = 0 /\ first = 0 /\ count = 0 /\ phase = "done" /\ l = 1 /\ skip = FALSE

Start == /\ Ev.ev = "start" /\ phase = "done"
         /\ total' = Ev.total /\ first' = l /\ count' = 0 /\ phase' = "run" /\ skip' = FALSE
\* a caller gets at most as many triangles as the buffer takes, all of the model
Read == /\ Ev.ev = "read" /\ ~skip
        /\ Ev.n = Len(Ev.ids) /\ Ev.n <= Ev.len
        /\ \A i \in 1..Ev.n : Ev.ids[i] \in 1..total
        /\ count' = count + Ev.n
        /\ CASE phase = "run" /\ Ev.e = "nil" -> phase' = "run" /\ count' <= total
             [] phase = "run" /\ Ev.e = "eof" -> phase' = "eof" /\ count' = total       \* nothing left
             [] phase = "eof" -> Ev.e = "eof" /\ Ev.n = 0 /\ phase' = "eof"             \* and it stays so
             [] OTHER -> FALSE
        /\ UNCHANGED <<total, first, skip>>
Empty == Ev.ev = "empty" /\ ~skip /\ phase = "run" /\ UNCHANGED <<total, first, count, phase, skip>>
\* everything exactly once
Delivered == UNION { { Trace[k].ids[i] : i \in 1..Len(Trace[k].ids) } : k \in { j \in first..l : Trace[j].ev = "read" } }
End == /\ Ev.ev = "end" /\ ~skip /\ phase = "eof"
       /\ count = total /\ Delivered = 1..total
       /\ phase' = "done"
       /\ UNCHANGED <<total, first, count, skip>>
Skip == skip /\ Ev.ev # "start" /\ UNCHANGED <<total, first, count, skip>> /\ phase' = "done"
Accept == Start \/ Read \/ Empty \/ End \/ Skip
Reject == /\ CSVWrite("%1$s", <<ToJson([line |-> l, case |-> Ev.case, count |-> count, total |-> total, phase |-> phase])>>, RejectFile)
          /\ skip' = TRUE /\ phase' = "done" /\ UNCHANGED <<total, first, count>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ IF ENABLED Accept THEN Accept ELSE Reject
TSpec == TInit /\ [][TNext]_tvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
