------------------------------- MODULE PurityGen -------------------------------
(* Histories of using shapes: phases in which one or several threads ask shapes for      *)
(* values (q > 0), bounds (q = 0) or a rendering (q = -1), with the caller's values      *)
(* changed and shapes put into new composites in between; everything is asked ("all")    *)
(* before and after the caller's values change, and at the end. Shapes and points are named    *)
(* by numbers which the driver takes modulo what a session has.                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, Randomization
OutFile == IOEnv.OUT
Steps == atoi(IOEnv.STEPS)
VARIABLES log, step, spoilt
R(lo, hi) == RandomElement(lo..hi)
One(S) == CHOOSE x \in S : TRUE
SeqN(n, F(_)) == [i \in 1..n |-> F(i)]
\* threads fight over few shapes: most calls of a phase are about its hot shapes
Call(hot) == <<IF R(1, 4) > 1 THEN hot[R(1, Len(hot))] ELSE R(0, 999), IF R(1, 9) = 1 THEN 0 ELSE R(1, 999)>>
Prog(hot, n) == One({SeqN(m, LAMBDA i : Call(hot)) : m \in {R(n \div 2, n)}})
Phase == One({CASE k <= 2 -> One({[k |-> "ask", progs |-> <<Prog(hot, 30)>>, sh |-> <<>>] : hot \in {<<R(0, 999), R(0, 999), R(0, 999)>>}})
                [] k <= 6 -> One({One({[k |-> "ask", progs |-> SeqN(n, LAMBDA i : Prog(hot, 30) \o (IF R(1, 8) = 1 THEN <<<<hot[1], -1>>>> ELSE <<>>)), sh |-> <<>>]
                                      : n \in {R(2, 6)}}) : hot \in {<<R(0, 999), R(0, 999)>>}})
                [] k = 7 /\ ~spoilt -> [k |-> "spoil", progs |-> <<>>, sh |-> <<>>]
                [] OTHER -> [k |-> "share", progs |-> <<>>, sh |-> <<R(0, 999), R(0, 999), R(0, 3)>>] : k \in {R(1, 9)}})
All == [k |-> "all", progs |-> <<>>, sh |-> <<>>]
Init == log = <<>> /\ step = 0 /\ spoilt = FALSE
Next == \/ step < Steps /\ step' = step + 1 /\ \E p \in {Phase} : log' = log \o (IF p.k = "spoil" THEN <<All, p, All>> ELSE <<p>>) /\ spoilt' = (spoilt \/ p.k = "spoil")
        \/ step = Steps /\ step' = step + 1 /\ UNCHANGED <<log, spoilt>>
           /\ CSVWrite("%1$s", <<ToJson([extra |-> R(0, 999), log |-> Append(log, All)])>>, OutFile)
Spec == Init /\ [][Next]_<<log, step, spoilt>>
================================================================================
