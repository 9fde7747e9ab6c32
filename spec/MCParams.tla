-------------------------------- MODULE MCParams --------------------------------
(* Every call is a state; a step doubles its lengths or exchanges like parameters.     *)
EXTENDS Params, TLC, Json, IOUtils, CSV
OutFile == IOEnv.OUT
VARIABLES call, how
vars == <<call, how>>
Lengths == {"circle", "sphere", "box2", "line", "box3", "cylinder", "capsule", "cone", "screw", "hexhead", "knurledhead", "bolt", "nut", "panel2", "panel3", "panelhole"}
\* the places of the parameters which may be exchanged
Like(k) == CASE k = "box2" -> {<<1, 2>>} [] k = "box3" -> {<<1, 2>>, <<2, 3>>} [] k = "cone" -> {<<2, 3>>} [] k = "panel2" -> {<<1, 2>>} [] k = "panel3" -> {<<1, 2>>}
             [] k = "chamfered" -> {<<1, 2>>} [] k = "panelhole" -> {<<3, 4>>, <<4, 5>>} [] OTHER -> {}
Init == IsCall(call) /\ how = "given"
Next == /\ how = "given"
        /\ \/ how' = "doubled" /\ call.k \in Lengths /\ call' = [call EXCEPT !.a = [i \in 1..Len(@) |-> 2 * @[i]]]
           \/ how' = "exchanged" /\ \E l \in Like(call.k) : call' = [call EXCEPT !.a = [@ EXCEPT ![l[1]] = call.a[l[2]], ![l[2]] = call.a[l[1]]]]
           \/ how' = "reversed" /\ call.k = "polygon" /\ call' = [call EXCEPT !.a = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
           \/ how' = "repeated" /\ call.k = "polygon" /\ Len(call.a) > 0 /\ call' = [call EXCEPT !.a = Append(@, @[Len(@)])]
Spec == Init /\ [][Next]_vars
Decided == Verdict(call) \in {"ok", "err", "any"}
\* neither changes what the parameters are worth
Kept == [][Verdict(call') = Verdict(call)]_vars
\* nothing negative is ever good where it is a length
Positive == call.k \in Lengths /\ Verdict(call) = "ok" => \A i \in 1..Len(call.a) : call.a[i] >= 0 \/ call.k \in {"panel2", "panel3"}
Written == how = "given" => CSVWrite("%1$s", <<ToJson([c |-> call, v |-> Verdict(call), d |-> IF call.k = "polygon" THEN Dedupe(call.a) ELSE <<>>])>>, OutFile)
=================================================================================
