-------------------------------- MODULE Purity --------------------------------
(* Shapes shared by several evaluating threads. A shape is built from a value the caller *)
(* owns and may change afterwards; evaluating has a first and a second half, between     *)
(* which anything may happen. What a shape answers at a point is decided once, when it   *)
(* is built. Impl names an implementation: "pure", or one which keeps the state of an    *)
(* evaluation in the shape ("scratch"), remembers the last answer ("cache"), or keeps     *)
(* the caller's value instead of a copy ("alias").                                       *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Shapes, Points, Values, Impl
None == 100
VARIABLES caller,   \* the caller's value a shape is built from
          built,    \* the value each shape has been built with, None before
          scratch,  \* what an impure implementation keeps in each shape
          pc,       \* what each thread is evaluating: <<shape, point>>, <<>> if nothing
          memo      \* the answers given so far
vars == <<caller, built, scratch, pc, memo>>
F(v, p) == v * 10 + p
Init == /\ caller = [s \in Shapes |-> 0] /\ built = [s \in Shapes |-> None]
        /\ scratch = [s \in Shapes |-> None] /\ pc = [t \in Threads |-> <<>>]
        /\ memo = [s \in Shapes |-> [p \in Points |-> {}]]
Build(s) == /\ built[s] = None
            /\ built' = [built EXCEPT ![s] = caller[s]] /\ UNCHANGED <<caller, scratch, pc, memo>>
Change(s) == \E v \in Values \ {caller[s]} : caller' = [caller EXCEPT ![s] = v] /\ UNCHANGED <<built, scratch, pc, memo>>
Start(t, s, p) == /\ pc[t] = <<>> /\ built[s] # None
                  /\ pc' = [pc EXCEPT ![t] = <<s, p>>]
                  /\ scratch' = [scratch EXCEPT ![s] = IF Impl = "scratch" \/ (Impl = "cache" /\ scratch[s] = None) THEN p ELSE @]
                  /\ UNCHANGED <<caller, built, memo>>
Answer(s, p) == CASE Impl = "pure" -> F(built[s], p)
                  [] Impl = "alias" -> F(caller[s], p)
                  [] OTHER -> F(built[s], scratch[s])
Finish(t) == /\ pc[t] # <<>>
             /\ LET s == pc[t][1]  p == pc[t][2] IN memo' = [memo EXCEPT ![s][p] = @ \cup {Answer(s, p)}]
             /\ pc' = [pc EXCEPT ![t] = <<>>] /\ UNCHANGED <<caller, built, scratch>>
Next == \/ \E s \in Shapes : Build(s) \/ Change(s)
        \/ \E t \in Threads : Finish(t) \/ \E s \in Shapes, p \in Points : Start(t, s, p)
Spec == Init /\ [][Next]_vars
\* the same question always gets the same answer
OneAnswer == \A s \in Shapes, p \in Points : Cardinality(memo[s][p]) <= 1
\* and it is the answer of the shape that was asked for
RightAnswer == \A s \in Shapes, p \in Points : memo[s][p] \subseteq {F(built[s], p)}
===============================================================================
