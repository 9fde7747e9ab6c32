------------------------------ MODULE PurityTrace ------------------------------
(* Judges recorded histories: every answer is numbered by its exact bits, so a history   *)
(* is a behaviour of Purity iff no shape gives two numbers for one question. Calls are   *)
(* <<shape, question, number>>; the order between threads does not matter, since any     *)
(* two answers must agree. Values the caller passed are questions -10 - i.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
RejectFile == IOEnv.REJECT
VARIABLES s, k, memo
vars == <<s, k, memo>>
Key(c) == c[1] * 10000 + c[2] + 100
Init == s = 1 /\ k = 0 /\ memo = {} /\ TLCSet(1, 1)
\* answers as pairs <<question, number>>; a question is answered twice if more pairs than questions
Pairs(calls) == { <<Key(calls[i]), calls[i][3]>> : i \in 1..Len(calls) }
OneEach(S) == Cardinality(S) = Cardinality({ x[1] : x \in S })
Twice(S) == CHOOSE q \in { x[1] : x \in S } : \E x, y \in S : x[1] = q /\ y[1] = q /\ x[2] # y[2]
Reject(c, msg) == /\ CSVWrite("%1$s", <<ToJson([case |-> Trace[s].case, phase |-> k, what |-> msg, q |-> c])>>, RejectFile)
                  /\ s' = s + 1 /\ k' = 0 /\ memo' = {}
Step == \E new \in { Pairs(Trace[s].ev[k]) } : \E all \in { memo \cup new } :
           IF ~OneEach(new) THEN Reject(Twice(new), "gave two answers to one question at the same time")
           ELSE IF ~OneEach(all) THEN Reject(Twice(all), "gave another answer than before")
           ELSE s' = s /\ k' = k + 1 /\ memo' = all
Next == /\ s <= Len(Trace)
        /\ IF k = 0 THEN k' = 1 /\ s' = s /\ memo' = {}
           ELSE IF k > Len(Trace[s].ev) THEN s' = s + 1 /\ k' = 0 /\ memo' = {}
           ELSE Step
        /\ TLCSet(1, s')
Spec == Init /\ [][Next]_vars
Consumed == TLCGet(1) = Len(Trace) + 1
================================================================================
