-------------------------------- MODULE Sinks --------------------------------
(***************************************************************************)
(* Consumers of a renderer: RenderAll, CreateSTL, Create3MF.               *)
(*                                                                         *)
(* A renderer is modelled by the script of what it still has to say: a     *)
(* sequence of steps [n |-> triangles, e |-> "nil" | "eof" | "fail"], the   *)
(* last of which is the only one with e # "nil".  Triangles are numbered   *)
(* 1, 2, 3, ... in the order in which they are delivered.  A read with a   *)
(* buffer of b triangles delivers at most b of the current step; the error *)
(* comes together with the last triangles of its step, which may be more   *)
(* than none: that is the io.Reader-like contract of render.Renderer.      *)
(*                                                                         *)
(* The consumer chooses its buffer sizes freely (they are an               *)
(* implementation choice); what it may not choose is what comes out.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS BufSizes,     \* buffer lengths the consumer may use
          Scripts,      \* set of renderer scripts
          Mutant        \* "none", or a named wrong consumer used to show that the properties bite

VARIABLES script,       \* the whole script (history)
          rest,         \* what the renderer still has to say
          given,        \* number of triangles delivered so far
          out,          \* triangles the consumer has kept, in order
          res           \* "run", or the consumer's final result: "ok" | "fail"

vars == <<script, rest, given, out, res>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).n + Total(Tail(s))
Last(s) == s[Len(s)]
Ids(a, b) == [i \in 1..(b - a) |-> a + i]       \* a+1 .. b

Init == /\ script \in Scripts
        /\ rest = script
        /\ given = 0 /\ out = <<>> /\ res = "run"

\* What one read of the renderer with a buffer of b triangles gives.
Delivered(b) == IF Head(rest).n <= b THEN Head(rest).n ELSE b
ErrOf(b) == IF Head(rest).n <= b THEN Head(rest).e ELSE "nil"
RestAfter(b) == IF Head(rest).n <= b THEN Tail(rest)
                ELSE <<[n |-> Head(rest).n - b, e |-> Head(rest).e]>> \o Tail(rest)

Keep(k, e) == CASE Mutant = "dropWithErr" /\ e # "nil" -> <<>>
                [] Mutant = "dropWithEof" /\ e = "eof" -> <<>>
                [] OTHER -> Ids(given, given + k)

\* The renderer's half of a read: it is the same for every consumer.
Deliver(b) == /\ rest # <<>> /\ b > 0
              /\ given' = given + Delivered(b)
              /\ rest' = RestAfter(b)

Read(b) ==
    /\ res = "run"
    /\ Deliver(b)
    /\ LET k == Delivered(b)
           e == ErrOf(b) IN
       /\ out' = out \o Keep(k, e)
       /\ res' = CASE e = "eof" -> "ok" 
                   [] e = "fail" -> (IF Mutant = "swallow" THEN "ok" ELSE "fail")
                   [] OTHER -> IF Mutant = "stopOnEmpty" /\ k = 0 THEN "ok" ELSE "run"
    /\ UNCHANGED script

Next == \E b \in BufSizes : Read(b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == res \in {"run", "ok", "fail"} /\ given \in Nat
Prefix == out = Ids(0, Len(out))                                  \* in order, nothing invented or repeated
NothingLost == Len(out) = given                                   \* nothing dropped on the way
Complete == res # "run" => /\ given = Total(script)
                           /\ (res = "ok") = (Last(script).e = "eof")
Finishes == <>(res # "run")
=============================================================================
