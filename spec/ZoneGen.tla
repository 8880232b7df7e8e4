------------------------------ MODULE ZoneGen -------------------------------
(* Zones of a small universe of records: from a base zone, every zone that     *)
(* differs from it in at most MaxDist records.  TLC computes for each whether  *)
(* it may be served; the harness writes its files and loads them (N06).        *)
EXTENDS Zone, Json

CONSTANTS MaxDist, Base

z == <<<<122>>>>
s == <<<<115>>>> \o z
t == <<<<116>>>> \o z
xs == <<<<120, 115>>>> \o z
L(c, n) == <<c>> \o n
nsl == <<110, 115>>
www == <<119>>
oth == <<<<111>>>>
T1 == <<0, 0, 0, 60>>
RR(n, ty, nm, by, nu) == [n |-> n, t |-> ty, c |-> 1, ttl |-> T1, d |-> [nm |-> nm, by |-> by, nu |-> nu]]
A(n, x) == RR(n, 1, <<>>, <<<<10, 0, 0, x>>>>, <<>>)
NS(n, m) == RR(n, 2, <<m>>, <<>>, <<>>)
CN(n, m) == RR(n, 5, <<m>>, <<>>, <<>>)
TX(n, b) == RR(n, 16, <<>>, <<b>>, <<>>)
SOA == RR(z, 6, <<L(nsl, z), L(<<109>>, z)>>, <<<<0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 5>>>>, <<>>)

nss == L(nsl, s)
nst == L(nsl, t)
nssUp == L(<<78, 83>>, <<<<83>>>> \o z)

\* <<file, record, in base 1, in base 2>>; file 0 is the zone's own, 1 and 2 are those of the sub zones
U == <<
  <<0, SOA, TRUE, TRUE>>,
  <<0, NS(z, L(nsl, z)), TRUE, TRUE>>,
  <<0, NS(z, oth), TRUE, FALSE>>,
  <<0, NS(L(www, z), oth), FALSE, FALSE>>,
  <<0, A(L(www, z), 1), TRUE, FALSE>>,
  <<0, A(L(www, s), 2), FALSE, FALSE>>,
  <<0, NS(s, nss), FALSE, FALSE>>,
  <<0, CN(s, xs), FALSE, FALSE>>,
  <<0, A(L(www, xs), 3), TRUE, FALSE>>,
  <<0, A(L(www, L(<<88, 83>>, z)), 4), FALSE, FALSE>>,
  <<0, A(L(www, <<<<83>>>> \o z), 4), FALSE, FALSE>>,
  <<0, SOA, FALSE, FALSE>>,
  <<0, A(L(www, oth), 5), FALSE, FALSE>>,
  <<0, TX(L(<<120, 122>>, <<>>), <<65>>), FALSE, FALSE>>,
  <<1, NS(s, nss), TRUE, FALSE>>,
  <<1, NS(s, nst), TRUE, FALSE>>,
  <<1, NS(s, L(nsl, z)), FALSE, TRUE>>,
  <<1, NS(s, oth), TRUE, FALSE>>,
  <<1, NS(s, nssUp), FALSE, FALSE>>,
  <<1, NS(s, s), FALSE, FALSE>>,
  <<1, NS(s, L(nsl, xs)), FALSE, FALSE>>,
  <<1, NS(s, L(nsl, L(<<113>>, t))), FALSE, FALSE>>,
  <<1, NS(L(www, s), nss), FALSE, FALSE>>,
  <<1, A(nss, 6), TRUE, FALSE>>,
  <<1, A(nssUp, 7), FALSE, FALSE>>,
  <<1, A(L(www, s), 8), FALSE, FALSE>>,
  <<1, A(s, 8), FALSE, FALSE>>,
  <<1, A(nst, 9), FALSE, FALSE>>,
  <<1, A(L(nsl, xs), 9), FALSE, FALSE>>,
  <<1, TX(s, <<66>>), FALSE, FALSE>>,
  <<1, CN(s, oth), FALSE, FALSE>>,
  <<2, NS(t, nss), TRUE, FALSE>>,
  <<2, NS(t, nst), TRUE, FALSE>>,
  <<2, NS(t, L(nsl, oth)), FALSE, TRUE>>,
  <<2, NS(t, L(nsl, L(<<113>>, t))), FALSE, FALSE>>,
  <<2, A(nst, 10), TRUE, FALSE>>,
  <<2, A(nst, 11), FALSE, FALSE>>,
  <<2, A(L(nsl, L(<<113>>, t)), 12), FALSE, FALSE>> >>

VARIABLES diff, top, first
vars == <<diff, top, first>>
Init == diff = {} /\ top = 0 /\ first = FALSE
Toggle == \E k \in top + 1 .. Len(U) : diff' = diff \cup {k} /\ top' = k /\ UNCHANGED first
\* the file starts with another record than the SOA
Reorder == ~first /\ first' = TRUE /\ top' = Len(U) /\ UNCHANGED diff
Next == Cardinality(diff) < MaxDist /\ (Toggle \/ Reorder)
Spec == Init /\ [][Next]_vars

Has(k) == (k \in diff) # U[k][2 + Base]
RECURSIVE File(_, _)
File(f, k) == IF k > Len(U) THEN <<>> ELSE (IF U[k][1] = f /\ Has(k) THEN <<U[k][2]>> ELSE <<>>) \o File(f, k + 1)
Rot(x) == IF first /\ Len(x) > 1 THEN Tail(x) \o <<Head(x)>> ELSE x
Z == [zone |-> z, recs |-> Rot(File(0, 1)), subs |-> <<[zone |-> s, recs |-> File(1, 1)], [zone |-> t, recs |-> File(2, 1)]>>]

Gen == LET zz == TLCEval(Z) IN PrintT(<<"GEN", ToJson([z |-> zz, ok |-> Consistent(zz)])>>)
=============================================================================
