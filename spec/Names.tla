------------------------------- MODULE Names -------------------------------
(* Domain names as sequences of labels, labels as sequences of byte values.   *)
(* The root is <<>>.  Comparison is by whole labels, ignoring ASCII case (C05)*)
EXTENDS Naturals, Sequences

LowerB(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerL(l) == [i \in 1..Len(l) |-> LowerB(l[i])]
Lower(n)  == [i \in 1..Len(n) |-> LowerL(n[i])]

SameName(a, b) == Lower(a) = Lower(b)

\* the last Len(z) labels of n are the labels of z
InZone(n, z) ==
    /\ Len(z) <= Len(n)
    /\ LET d == Len(n) - Len(z) IN
       \A i \in 1..Len(z) : LowerL(n[d + i]) = LowerL(z[i])

IsAlnum(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsLdh(c)   == IsAlnum(c) \/ c = 45

LabelOk(l) ==
    /\ Len(l) >= 1 /\ Len(l) <= 63
    /\ IsAlnum(l[1]) /\ IsAlnum(l[Len(l)])
    /\ \A i \in 1..Len(l) : IsLdh(l[i])

\* octets of the encoded name, including the final zero octet
RECURSIVE WireLen(_)
WireLen(n) == IF n = <<>> THEN 1 ELSE 1 + Len(Head(n)) + WireLen(Tail(n))

NameOk(n) == WireLen(n) <= 255 /\ \A i \in 1..Len(n) : LabelOk(n[i])

\* zones that contain n, from n itself up to the root
Ancestors(n) == [i \in 1..(Len(n) + 1) |-> SubSeq(n, i, Len(n))]
=============================================================================
