------------------------------- MODULE MCSinks -------------------------------
(* Exhaustive configuration of Sinks: all scripts of up to MaxSteps steps.   *)
EXTENDS Sinks, TLC
CONSTANTS MaxSteps, MaxN
Steps == [n : 0..MaxN, e : {"nil"}]
Ends == [n : 0..MaxN, e : {"eof", "fail"}]
MCScripts == UNION { { s \o <<x>> : s \in [1..k -> Steps], x \in Ends } : k \in 0..(MaxSteps - 1) }
=============================================================================
