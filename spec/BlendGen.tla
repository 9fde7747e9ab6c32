------------------------------- MODULE BlendGen -------------------------------
(* Histories of composites whose blending functions are set, replaced and reset, with *)
(* queries in between; written out with the interval of every answer. Run with         *)
(* -simulate. dim 2 or 3; in an "apart" session every union is blended, because an      *)
(* unblended union may use the bounds of its members, which leaves do not respect.     *)
EXTENDS Blend, TLC, Json, IOUtils, CSV, Randomization, FiniteSetsExt
OutFile == IOEnv.OUT
Steps == atoi(IOEnv.STEPS)
VARIABLES heap, log, dim, apart, step
vars == <<heap, log, dim, apart, step>>
R(lo, hi) == RandomElement(lo..hi)
Pick(S) == RandomElement(S)
SeqN(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Radius(x) == Pick({1, 250, 1000, R(1, 999), R(1000, 8000), R(1000, 15000), 15000})
\* a random choice is bound by a singleton set; a LET would make it anew at each use
One(S) == CHOOSE x \in S : TRUE
AnyMinTo(hi) == One({
   IF h <= 7 THEN [f |-> "poly", n |-> Pick({0, 1, 2, 2, 3, 3, 4, 5, 6}), k |-> Radius(0)]
   ELSE IF h <= 10 THEN [f |-> "round", n |-> 0, k |-> Radius(0)]
   ELSE IF h = 11 THEN [f |-> "exp", n |-> 0, k |-> R(1000, 4000)] ELSE Std : h \in {R(1, hi)}})
AnyMin(x) == AnyMinTo(12)
AnyMax(x) == IF R(1, 8) = 1 THEN Std ELSE [f |-> "poly", n |-> Pick({1, 2, 2, 3, 3, 4, 5, 6}), k |-> Radius(0)]
FnFor(op) == IF op \in Mins THEN AnyMin(0) ELSE IF op \in Maxs THEN AnyMax(0) ELSE Std
\* points and coefficients stay small: values of leaves within 15000
Pt(x) == <<R(-20, 20) * Pick({1, 10, 50}), R(-20, 20) * Pick({1, 10, 50}), IF dim = 2 THEN 0 ELSE R(-20, 20) * Pick({1, 10, 50})>>
Leaf(x) == LET k == R(1, 3) IN
   [op |-> "leaf", in |-> <<>>, fn |-> Std, dep |-> 1,
    a |-> IF k = 1 THEN <<0, 0, 0, R(-9000, 9000)>> ELSE <<R(-3, 3), R(-3, 3), IF dim = 2 THEN 0 ELSE R(-3, 3), Pick({0, R(-4000, 4000), R(-300, 300)})>>]
\* dep counts the leaf evaluations of an entry
Shallow(d) == {i \in 1..Len(heap) : heap[i].dep <= d}
\* the parts a leaf occupies are told to the code as its bounds; in apart sessions they lie anywhere
Bnd(x) == IF apart THEN <<R(-30, 30), R(-30, 30), R(-30, 30), R(1, 8)>> ELSE <<0, 0, 0, 60>>
Kids(op) == IF op = "union" THEN SeqN(R(2, 5), LAMBDA i : Pick(Shallow(12)))
            ELSE IF op \in Maxs THEN <<Pick(Shallow(12)), Pick(Shallow(12))>> ELSE <<Pick(Shallow(3))>>
Args(op) == CASE op = "array" -> <<R(1, 3), R(1, 3), IF dim = 2 THEN 1 ELSE R(1, 3), R(-400, 400), R(-400, 400), IF dim = 2 THEN 0 ELSE R(-400, 400)>>
              [] op = "rotu" -> <<R(1, 5), R(-2, 3)>> [] OTHER -> <<>>
Func(op) == IF op = "union" /\ apart THEN AnyMinTo(11) ELSE IF R(1, 4) = 1 THEN Std ELSE FnFor(op)
Comp(op) == One({ One({
   [op |-> op, in |-> kids, a |-> a, fn |-> Func(op),
    dep |-> FoldLeft(LAMBDA acc, j : acc + heap[j].dep, 0, kids) * (IF op = "array" THEN a[1] * a[2] * a[3] ELSE IF op = "rotu" THEN a[1] ELSE 1)]
   : kids \in {Kids(op)}}) : a \in {Args(op)}})
New == \E e \in {IF Len(heap) < 4 THEN Leaf(0) ELSE One({Comp(op) : op \in {Pick({"union", "diff", "inter", "array", "rotu"})}})} :
          /\ heap' = Append(heap, e)
          /\ log' = Append(log, [k |-> "new", e |-> e, b |-> TLCEval(Bnd(0))])
Composites == {i \in 1..Len(heap) : heap[i].op # "leaf"}
Set == \E i \in {Pick(Composites)} : \E fn \in {IF apart /\ heap[i].op = "union" THEN AnyMinTo(11) ELSE FnFor(heap[i].op)} :
       /\ heap' = [heap EXCEPT ![i].fn = fn]
       /\ log' = Append(log, [k |-> "set", i |-> i, fn |-> fn])
Ask == \E i \in {Pick(Composites)} :
       /\ log' = Append(log, [k |-> "ask", i |-> i, pr |-> SeqN(6, LAMBDA h : One({q \o Val(heap, i, q) : q \in {Pt(0)}}))])
       /\ UNCHANGED heap
\* pairs of values for the functions themselves
Near(a, k) == a + Pick({0, 1, -1, k, -k, k + 1, k - 1, -k - 1, R(-k, k), R(-k, k), R(-k, k), R(-9000, 9000)})
Clip(x) == BMax(-15000, BMin(15000, x))
Pair(fn, mx) == One({ One({ <<a, b>> \o (IF mx THEN FMax(fn, a, b) ELSE FMin(fn, a, b)) : b \in {Clip(y) : y \in {Near(a, fn.k)}}}) :
                      a \in {Pick({0, R(-15000, 15000), R(-500, 500), R(-fn.k, fn.k)})}})
Fun == \E mx \in {R(1, 3) = 1} : \E fn \in {IF mx THEN AnyMax(0) ELSE AnyMin(0)} :
       /\ log' = Append(log, [k |-> IF mx THEN "max" ELSE "min", fn |-> fn, pr |-> SeqN(8, LAMBDA h : Pair(fn, mx))])
       /\ UNCHANGED heap
Init == heap = <<>> /\ log = <<>> /\ dim \in {2, 3} /\ apart \in BOOLEAN /\ step = 0
Act == IF step < 5 THEN New ELSE \E h \in {R(1, 10)} :
   CASE h <= 2 -> New [] h <= 4 /\ Composites # {} -> Set [] h <= 8 /\ Composites # {} -> Ask [] OTHER -> Fun
Next == \/ step < Steps /\ step' = step + 1 /\ Act /\ UNCHANGED <<dim, apart>>
        \/ /\ step = Steps /\ step' = step + 1 /\ UNCHANGED <<heap, log, dim, apart>>
           /\ CSVWrite("%1$s", <<ToJson([dim |-> dim, apart |-> apart, scale |-> Pick({0, -3, 3}), log |-> log])>>, OutFile)
Spec == Init /\ [][Next]_vars
\* an answer lies between the plain folds widened by the radii
Sane == \A h \in 1..Len(log) : log[h].k \in {"ask", "min", "max"} => \A j \in 1..Len(log[h].pr) :
           LET t == log[h].pr[j]  n == Len(t) IN t[n - 1] <= t[n]
=============================================================================
