------------------------------- MODULE StlCodec -------------------------------
(***************************************************************************)
(* The binary STL format, byte by byte, for triangles with coordinates     *)
(* that are multiples of a quarter.  Bytes are numbers 0..255.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* ---- IEEE 754 single precision, little endian, of n / 2^q
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Abs(n) == IF n < 0 THEN -n ELSE n
F32(n, q) == IF n = 0 THEN <<0, 0, 0, 0>> ELSE
    LET a == Abs(n)
        e == Log2(a)
        man == (a - Pow2(e)) * Pow2(23 - e)          \* 23 bits
        x == e - q + 127                             \* biased exponent
    IN << man % 256, (man \div 256) % 256, (man \div 65536) + 128 * (x % 2),
          (x \div 2) + (IF n < 0 THEN 128 ELSE 0) >>
\* the two non-dyadic numbers among the normals
F06(neg) == <<154, 153, 25, 63 + (IF neg THEN 128 ELSE 0)>>
F08(neg) == <<205, 204, 76, 63 + (IF neg THEN 128 ELSE 0)>>

\* ---- the numbered triangles (the same as vh.Tri in the harness), in quarters
Leg1 == << <<4, 0, 0>>, <<0, 4, 0>>, <<0, 4, 0>>, <<0, 0, 4>>, <<0, 0, 8>>, <<4, 0, 0>>, <<0, 0, 4>>, <<16, 12, 0>> >>
Leg2 == << <<0, 4, 0>>, <<4, 0, 0>>, <<0, 0, 4>>, <<0, 4, 0>>, <<4, 0, 0>>, <<0, 0, 8>>, <<16, 12, 0>>, <<0, 0, 4>> >>
Origin(id) == << (id % 97) - 48, 4 * (((id \div 97) % 89) - 40), 4 * (id \div 8633) + 2 >>
Plus(u, v) == << u[1] + v[1], u[2] + v[2], u[3] + v[3] >>
Tri(id) == << Origin(id), Plus(Origin(id), Leg1[(id % 8) + 1]), Plus(Origin(id), Leg2[(id % 8) + 1]) >>
\* unit normal by the right hand rule, one byte quadruple per component
Z == F32(0, 0)
One(neg) == F32(IF neg THEN -1 ELSE 1, 0)
NormalBytes(id) ==
    << Z \o Z \o One(FALSE), Z \o Z \o One(TRUE), One(FALSE) \o Z \o Z, One(TRUE) \o Z \o Z,
       Z \o One(FALSE) \o Z, Z \o One(TRUE) \o Z, F06(TRUE) \o F08(FALSE) \o Z, F06(FALSE) \o F08(TRUE) \o Z >>[(id % 8) + 1]
VecBytes(v) == F32(v[1], 2) \o F32(v[2], 2) \o F32(v[3], 2)
Record(id) == NormalBytes(id) \o VecBytes(Tri(id)[1]) \o VecBytes(Tri(id)[2]) \o VecBytes(Tri(id)[3]) \o <<0, 0>>
Header(n) == [i \in 1..80 |-> 0] \o << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
RECURSIVE Records(_)
Records(ids) == IF ids = <<>> THEN <<>> ELSE Record(Head(ids)) \o Records(Tail(ids))
File(ids) == Header(Len(ids)) \o Records(ids)

\* the sign of a zero is free: a zero byte quadruple may end in 128
SameByte(f, g, i) == \/ f[i] = g[i]
                     \/ /\ i > 84 /\ ((i - 85) % 50) % 4 = 3 /\ (i - 85) % 50 < 48
                        /\ f[i] = 0 /\ g[i] = 128
                        /\ f[i-1] = 0 /\ f[i-2] = 0 /\ f[i-3] = 0
SameFile(f, g) == Len(f) = Len(g) /\ \A i \in 1..Len(f) : SameByte(f, g, i)
=============================================================================
