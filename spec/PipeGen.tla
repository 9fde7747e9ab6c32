-------------------------------- MODULE PipeGen --------------------------------
(* Design sessions which end with a part being made: a shape is rendered at some           *)
(* resolution, written to a file, read back and imported as a shape again, possibly        *)
(* rendered and imported a second time. Every shape here changes by at most the distance   *)
(* between two points, which is what the laws of PipeTrace rest on.                        *)
EXTENDS SdfGen
Made == { i \in Cands(3) : heap[i].m > 40 /\ heap[i].r < 3000 }
Also == atoi(IOEnv.ALSO)
FinishPipe ==
   /\ Len(heap) = Steps /\ ops = <<>>
   /\ \E i \in {LET late == { j \in Made : j > Steps \div 2 } IN IF late = {} THEN (IF Made = {} THEN 0 ELSE Pick(Made)) ELSE Pick(late)} :
      IF i = 0 THEN ops' = <<1>> /\ UNCHANGED heap
      ELSE /\ ops' = SeqN(i, LAMBDA j : Out(heap[j], IF i = j THEN Probe(heap[i]) ELSE <<>>))
           /\ CSVWrite("%1$s", <<ToJson([unit |-> Pick(0..4), ops |-> ops',
                 pipe |-> [cells |-> Pick({6, 9, 13, 20, 27}), file |-> Pick({"", "stl", "wstl", "3mf"}), import |-> R(1, 2),
                           also |-> [k \in 1..Also |-> Pick({k + 7, 3 * k + 9, 24, 32})],
                           again |-> IF R(1, 6) = 1 THEN Pick({8, 12}) ELSE 0]])>>, OutFile)
           /\ UNCHANGED heap
PipeNext == IF Len(heap) < Steps THEN Step /\ ops' = ops ELSE FinishPipe
PipeSpec == Init /\ [][PipeNext]_vars
===============================================================================
