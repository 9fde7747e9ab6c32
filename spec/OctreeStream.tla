----------------------------- MODULE OctreeStream -----------------------------
(***************************************************************************)
(* The octree renderer as a state machine.                                 *)
(*                                                                         *)
(* A cube is [id, t, kids]: a leaf (no kids) yields the triangles          *)
(* <<id, 1>> .. <<id, t>>, t <= MaxTri; an inner cube yields its kids.     *)
(* State: the cubes still to do, the triangles produced but not delivered  *)
(* (spill), and, during a call served by several workers, the destination  *)
(* buffer and what each worker has left.  One action per step that other   *)
(* workers can observe: a worker processes one cube and, if it may not fit *)
(* any more, appends to the shared spill buffer.                           *)
(*                                                                         *)
(* The contract (what a caller relies on) is at the end; it mentions only  *)
(* the calls and what they deliver.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Roots,      \* initial cubes (one is chosen)
          Lens,       \* buffer lengths the caller may use
          Workers,    \* set of worker counts (0: single threaded); one is chosen
          MaxTri,
          Mutant

VARIABLES root, nw, todo, spill, phase, len, dst, base, ws, delivered, dup, last, calls
vars == <<root, nw, todo, spill, phase, len, dst, base, ws, delivered, dup, last, calls>>

Junk == <<0, 0>>
RECURSIVE TrisOf(_), TrisOfAll(_)
TrisOf(c) == IF c.kids = <<>> THEN { <<c.id, i>> : i \in 1..c.t } ELSE TrisOfAll(c.kids)
TrisOfAll(s) == IF s = <<>> THEN {} ELSE TrisOf(Head(s)) \cup TrisOfAll(Tail(s))
All == TrisOf(root)
Seqn(c) == IF c.kids = <<>> THEN [i \in 1..c.t |-> <<c.id, i>>] ELSE <<>>

Min(a, b) == IF a < b THEN a ELSE b
Range(s) == { s[i] : i \in DOMAIN s }

Init == /\ root \in Roots /\ nw \in Workers
        /\ todo = <<root>> /\ spill = <<>> /\ phase = "idle"
        /\ len = 0 /\ dst = <<>> /\ base = 0 /\ ws = <<>>
        /\ delivered = {} /\ dup = FALSE
        /\ last = [n |-> 0, eof |-> FALSE, len |-> 1] /\ calls = 0

\* what a call hands to the caller
Return(s, eof) ==
    /\ dup' = (dup \/ Cardinality(Range(s)) # Len(s) \/ Range(s) \cap delivered # {} \/ Junk \in Range(s))
    /\ delivered' = delivered \cup Range(s)
    /\ last' = [n |-> Len(s), eof |-> eof, len |-> len']
    /\ phase' = IF eof THEN "eof" ELSE "idle"

\* ---- single threaded processing of a list of cubes into room free places
RECURSIVE Serial(_, _, _)
Serial(cubes, room, a) ==
    IF cubes = <<>> \/ Len(a.out) = room THEN a
    ELSE LET c == Head(cubes) IN
         IF Len(a.out) + MaxTri > room
         THEN [a EXCEPT !.spill = IF Mutant = "noSpill" THEN @ ELSE @ \o Seqn(c), !.new = @ \o c.kids,
                        !.done = IF Mutant = "repeatCube" THEN @ ELSE @ + 1]
         ELSE Serial(Tail(cubes), room, [a EXCEPT !.out = @ \o Seqn(c), !.new = @ \o c.kids, !.done = @ + 1])

Fresh == [out |-> <<>>, spill |-> <<>>, new |-> <<>>, done |-> 0]

Call(n) ==
    /\ phase \in {"idle", "eof"} /\ calls' = calls + 1
    /\ len' = n
    /\ LET k == Min(Len(spill), n)
           pre == SubSeq(spill, 1, k)
           rest == SubSeq(spill, k + 1, Len(spill)) IN
       CASE k = n ->                                            \* served from the spill buffer
              /\ spill' = rest /\ Return(pre, FALSE) /\ UNCHANGED <<todo, dst, base, ws>>
         [] k < n /\ todo = <<>> ->                             \* nothing left
              /\ spill' = rest /\ Return(pre, TRUE) /\ UNCHANGED <<todo, dst, base, ws>>
         [] k < n /\ todo # <<>> /\ (nw < 1 \/ Len(todo) < nw \/ n < nw) ->
              LET a == Serial(todo, n - k, Fresh) IN
              /\ spill' = rest \o a.spill
              /\ todo' = SubSeq(todo \o a.new, a.done + 1, Len(todo) + Len(a.new))
              /\ Return(pre \o a.out, Mutant = "eofEarly" /\ todo' = <<>>)
              /\ UNCHANGED <<dst, base, ws>>
         [] OTHER ->                                            \* several workers
              LET room == n - k
                  div == room \div nw
                  divC == Len(todo) \div nw IN
              /\ phase' = "work" /\ spill' = rest
              /\ dst' = pre \o [i \in 1..room |-> Junk] /\ base' = k
              /\ ws' = [w \in 1..nw |->
                    [start |-> div * (w - 1),
                     cap   |-> IF w = nw THEN room - div * (w - 1) ELSE div,
                     n     |-> 0,
                     cubes |-> SubSeq(todo, divC * (w - 1) + 1, IF w = nw THEN Len(todo) ELSE divC * w),
                     new   |-> <<>>, on |-> TRUE]]
              /\ todo' = <<>>
              /\ UNCHANGED <<delivered, dup, last>>
    /\ UNCHANGED <<root, nw>>

\* worker w takes one cube, or finds that it is done
Work(w) ==
    /\ phase = "work" /\ w \in DOMAIN ws /\ ws[w].on
    /\ LET x == ws[w] IN
       IF x.cubes = <<>> \/ x.n = x.cap
       THEN ws' = [ws EXCEPT ![w].on = FALSE] /\ UNCHANGED <<dst, spill>>
       ELSE LET c == Head(x.cubes)  t == Seqn(c) IN
            IF x.n + MaxTri > x.cap
            THEN /\ spill' = spill \o t
                 /\ ws' = [ws EXCEPT ![w] = [x EXCEPT !.cubes = Tail(@), !.new = @ \o c.kids, !.on = FALSE]]
                 /\ UNCHANGED dst
            ELSE /\ dst' = [i \in DOMAIN dst |-> LET j == i - base - x.start - x.n IN
                              IF j >= 1 /\ j <= Len(t) THEN t[j] ELSE dst[i]]
                 /\ ws' = [ws EXCEPT ![w] = [x EXCEPT !.n = @ + Len(t), !.cubes = Tail(@), !.new = @ \o c.kids]]
                 /\ UNCHANGED spill
    /\ UNCHANGED <<root, nw, todo, phase, len, base, delivered, dup, last, calls>>

\* after the join: close the gaps, collect the cubes
RECURSIVE Compact(_, _, _, _)
\* d: the destination without the prefix; off: how far later segments have moved
Compact(d, w, off, div) ==
    IF w > nw THEN d
    ELSE LET start == div * (w - 1) - off
             gap == div - ws[w].n IN
         IF w # nw /\ gap # 0 /\ Mutant # "noCompact"
         THEN Compact([i \in 1..Len(d) |-> IF i > start + ws[w].n /\ i + gap <= Len(d) THEN d[i + gap] ELSE d[i]], w + 1, off + gap, div)
         ELSE Compact(d, w + 1, off, div)
RECURSIVE Left(_), Sum(_)
Left(w) == IF w > nw THEN <<>> ELSE (IF Mutant = "dropCubes" /\ w = 1 THEN <<>> ELSE ws[w].cubes) \o ws[w].new \o Left(w + 1)
Sum(w) == IF w > nw THEN 0 ELSE ws[w].n + Sum(w + 1)
Join ==
    /\ phase = "work" /\ \A w \in DOMAIN ws : ~ws[w].on
    /\ LET room == Len(dst) - base
           d == Compact(SubSeq(dst, base + 1, Len(dst)), 1, 0, room \div nw) IN
       /\ len' = len
       /\ Return(SubSeq(dst, 1, base) \o SubSeq(d, 1, Sum(1)), FALSE)
    /\ todo' = Left(1)
    /\ ws' = <<>> /\ dst' = <<>> /\ base' = 0
    /\ UNCHANGED <<root, nw, spill, calls>>

Next == (\E n \in Lens : Call(n)) \/ (\E w \in 1..4 : Work(w)) \/ Join
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(\E n \in Lens : Call(n)) /\ WF_vars(\E w \in 1..4 : Work(w)) /\ WF_vars(Join)

\* ---- the contract of a renderer, in terms of what calls return
NeverTwice == ~dup                                        \* no triangle twice, none invented
OnlyModel == delivered \subseteq All
WithinBuffer == last.n <= last.len
EofMeansAll == (last.eof /\ phase = "eof") => delivered = All
EofSticky == [][(phase = "eof" /\ phase' \in {"idle", "eof"} /\ last # last') => (last'.eof /\ last'.n = 0)]_vars
Terminates == <>(phase = "eof")
\* ---- conservation, the reason why
Held == Range(spill) \cup TrisOfAll(todo)
        \cup UNION { TrisOfAll(ws[w].cubes) \cup TrisOfAll(ws[w].new) : w \in DOMAIN ws }
        \cup (IF phase = "work" THEN Range(dst) \ {Junk} ELSE {})
Conservation == /\ delivered \cup Held = All
                /\ delivered \cap Held = {}
=============================================================================
