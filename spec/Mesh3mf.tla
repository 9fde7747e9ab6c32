-------------------------------- MODULE Mesh3mf --------------------------------
(***************************************************************************)
(* Indexed mesh built from a triangle soup.  Corners are numbers naming    *)
(* distinct coordinates.  The builder sees one corner after the other,     *)
(* looks it up among the vertices it has, and appends it if it is new.     *)
(*                                                                         *)
(* Property: dereferencing gives back the soup, vertices are distinct, all *)
(* of them are used, and indices (from 0) are in range.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV, Randomization, FiniteSets, SequencesExt
CONSTANTS Alphabet, MaxTris
VARIABLES soup, pos, verts, idx
vars == <<soup, pos, verts, idx>>
Corner(s, p) == s[((p - 1) \div 3) + 1][((p - 1) % 3) + 1]
Find(v, c) == CHOOSE i \in 1..Len(v) : v[i] = c
Init == /\ soup \in UNION { [1..k -> Alphabet \X Alphabet \X Alphabet] : k \in 0..MaxTris }
        /\ pos = 1 /\ verts = <<>> /\ idx = <<>>
Step == /\ pos <= 3 * Len(soup)
        /\ LET c == Corner(soup, pos) IN
           IF \E i \in 1..Len(verts) : verts[i] = c
           THEN verts' = verts /\ idx' = Append(idx, Find(verts, c) - 1)
           ELSE verts' = Append(verts, c) /\ idx' = Append(idx, Len(verts))
        /\ pos' = pos + 1 /\ UNCHANGED soup
Spec == Init /\ [][Step]_vars

\* ---- the property, for any builder
InRange(v, ts) == \A t \in 1..Len(ts) : \A k \in 1..3 : ts[t][k] >= 0 /\ ts[t][k] < Len(v)
Deref(v, ts) == [t \in 1..Len(ts) |-> << v[ts[t][1] + 1], v[ts[t][2] + 1], v[ts[t][3] + 1] >>]
Distinct(v) == \A i, j \in 1..Len(v) : i # j => v[i] # v[j]
AllUsed(v, ts) == \A i \in 1..Len(v) : \E t \in 1..Len(ts) : \E k \in 1..3 : ts[t][k] = i - 1
MeshOK(s, v, ts) == InRange(v, ts) /\ Distinct(v) /\ AllUsed(v, ts) /\ Deref(v, ts) = [i \in 1..Len(s) |-> <<s[i][1], s[i][2], s[i][3]>>]
Triples == [t \in 1..(Len(idx) \div 3) |-> << idx[3*t-2], idx[3*t-1], idx[3*t] >>]
Inv == pos > 3 * Len(soup) => MeshOK(soup, verts, Triples)

\* ---- generation of soups for the real code
Nsim == atoi(IOEnv.NSIM)
T6 == (1..6) \X (1..6) \X (1..6)
Soups == { <<t>> : t \in T6 } \cup RandomSubset(Nsim, { <<a, b>> : a \in T6, b \in T6 })
         \cup { [i \in 1..(3 + (k % 40)) |-> << RandomElement(1..6), RandomElement(1..6), RandomElement(1..6) >>] : k \in 1..Nsim }
         \cup { << <<1,2,3>>, <<1,4,2>>, <<2,4,3>>, <<3,4,1>> >> }    \* a closed surface
GInit == soup = <<>> /\ pos = 1 /\ verts = <<>> /\ idx = <<>>
GNext == /\ pos = 1 /\ pos' = 2 /\ UNCHANGED <<soup, verts, idx>>
         /\ LET q == SetToSeq(Soups) IN \A i \in 1..Len(q) :
              CSVWrite("%1$s", <<ToJson([case |-> i, tris |-> q[i], alpha |-> i % 4, split |-> i % 5])>>, IOEnv.OUT)
GSpec == GInit /\ [][GNext]_vars

\* ---- validation of what the real code wrote
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts(e) == {e.parts[i] : i \in 1..Len(e.parts)}
PackageOK(e) == /\ {"[Content_Types].xml", "_rels/.rels"} \subseteq Parts(e)
                /\ e.rel \in Parts(e) /\ e.ct /\ e.root = "model"
                /\ e.unit = "millimeter" /\ e.objs = 1 /\ e.items = <<e.objid>> /\ e.objid > 0
EventOK(e) == e.res = "ok" /\ e.panic = "" /\ PackageOK(e)
              /\ (\A i \in 1..Len(e.verts) : e.verts[i] > 0) /\ MeshOK(e.in, e.verts, e.tris)
TNext == /\ pos <= Len(Trace) /\ pos' = pos + 1 /\ UNCHANGED <<soup, verts, idx>>
         /\ IF EventOK(Trace[pos]) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([line |-> pos, pkg |-> PackageOK(Trace[pos])])>>, IOEnv.REJECT)
TSpec == GInit /\ [][TNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
