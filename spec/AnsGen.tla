------------------------------- MODULE AnsGen -------------------------------
(* Consistent zones built from optional groups of records, for N03 and N04:    *)
(* each zone is asked every question over a universe of names and types.       *)
EXTENDS Zone, Json
CONSTANT Groups

z == <<<<122>>>>
L(c, n) == <<c>> \o n
s == L(<<115>>, z)
t == L(<<116>>, z)
xs == L(<<120, 115>>, z)
a == L(<<97>>, z)
b == L(<<98>>, z)
ba == L(<<98>>, a)
nsl == <<110, 115>>
oth == <<<<111>>>>
TT(n) == <<0, 0, n, 60>>
RR(n, ty, ttl, nm, by, nu) == [n |-> n, t |-> ty, c |-> 1, ttl |-> ttl, d |-> [nm |-> nm, by |-> by, nu |-> nu]]
A(n, x) == RR(n, 1, TT(x), <<>>, <<<<10, 0, 0, x>>>>, <<>>)
NS(n, m) == RR(n, 2, TT(1), <<m>>, <<>>, <<>>)
CN(n, m) == RR(n, 5, TT(2), <<m>>, <<>>, <<>>)
TX(n, x) == RR(n, 16, TT(3), <<>>, x, <<>>)
MX(n, p, m) == RR(n, 15, TT(4), <<m>>, <<>>, <<p>>)
SOA == RR(z, 6, TT(5), <<L(nsl, z), L(<<109>>, z)>>, <<<<0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 5>>>>, <<>>)
nss == L(nsl, s)
nst == L(nsl, t)

\* optional groups: <<records of the zone, of sub zone s, of sub zone t>>
G == <<
  <<<<A(a, 1), A(a, 2)>>, <<>>, <<>>>>,
  <<<<CN(b, a), TX(ba, <<<<65, 32>>, <<>>>>)>>, <<>>, <<>>>>,
  <<<<CN(a, L(<<113>>, oth)), MX(z, 10, a), MX(z, 300, b)>>, <<>>, <<>>>>,
  <<<<A(xs, 3), A(L(<<97>>, xs), 4), A(z, 5)>>, <<>>, <<>>>>,
  <<<<>>, <<NS(s, nss), A(nss, 6), A(nss, 7)>>, <<>>>>,
  <<<<>>, <<NS(s, nst)>>, <<A(nst, 8)>>>>,
  <<<<>>, <<>>, <<NS(t, nst), NS(t, L(<<78, 83>>, L(<<83>>, z))), A(nst, 9)>>>>,
  <<<<A(L(<<65>>, z), 10), A(L(nsl, z), 11)>>, <<>>, <<>>>> >>

VARIABLES sel, k
vars == <<sel, k>>
Init == sel = {} /\ k = 0
Next == k < Groups /\ k' = k + 1 /\ (sel' = sel \/ sel' = sel \cup {k + 1})
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _)
Cat(f, j) == IF j > Len(G) THEN <<>> ELSE (IF j \in sel THEN G[j][f] ELSE <<>>) \o Cat(f, j + 1)
Z == [zone |-> z, recs |-> <<SOA, NS(z, L(nsl, z)), NS(z, oth)>> \o Cat(1, 1),
      subs |-> <<[zone |-> s, recs |-> <<NS(s, oth)>> \o Cat(2, 1)], [zone |-> t, recs |-> <<NS(t, L(nsl, z))>> \o Cat(3, 1)]>>]

QNames == {z, a, b, ba, L(<<65>>, <<<<90>>>>), s, L(<<97>>, s), L(<<97>>, L(<<83>>, z)), nss, t, nst, xs, L(<<97>>, xs), L(<<113>>, z),
           oth, <<>>, L(<<120, 122>>, <<>>), L(nsl, z), L(<<122>>, L(<<97>>, <<>>))}
QTypes == {1, 2, 5, 6, 12, 15, 16}

\* only consistent zones are asked; the others are left to ZoneGen
Gen == (k = Groups /\ Consistent(TLCEval(Z))) =>
         PrintT(<<"GEN", ToJson([z |-> Z, qs |-> {[n |-> n, t |-> ty] : n \in QNames, ty \in QTypes}])>>)
=============================================================================
