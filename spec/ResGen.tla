------------------------------- MODULE ResGen -------------------------------
(* Hierarchies of zones built from a choice in every respect that matters to   *)
(* an iterative resolver, and the sequences of questions put to it, for R01:   *)
(*   where the name servers of each zone are named (in the zone itself, in its *)
(*   parent, elsewhere with or without a known address), how deep the zones    *)
(*   nest, what the names hold (addresses, aliases within and across zones,    *)
(*   nothing), lifetimes, and how servers use their freedom when replying.     *)
(* The harness adds the root zone.                                             *)
EXTENDS Resolver, Json
CONSTANTS Depth, Dist

com == <<<<99, 111, 109>>>>
org == <<<<111, 114, 103>>>>
L(c, n) == <<c>> \o n
a == <<97>>
nsl == <<110, 115>>
www == <<119, 119, 119>>
acom == L(a, com)
xacom == L(<<120>>, acom)
aorg == L(a, org)
T(n) == CASE n < 0 -> <<255, 255, 255, 255>> [] OTHER -> <<0, 0, n \div 256, n % 256>>
RR(n, ty, ttl, nm, by) == [n |-> n, t |-> ty, c |-> 1, ttl |-> T(ttl), d |-> [nm |-> nm, by |-> by, nu |-> <<>>]]
A(n, ttl, x, y) == RR(n, 1, ttl, <<>>, <<<<10, 0, x, y>>>>)
NS(n, ttl, m) == RR(n, 2, ttl, <<m>>, <<>>)
CN(n, ttl, m) == RR(n, 5, ttl, <<m>>, <<>>)
TX(n, ttl) == RR(n, 16, ttl, <<>>, <<<<120>>>>)
SOA(z) == RR(z, 6, 60, <<L(nsl, z), L(<<109>>, z)>>, <<<<0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5>>>>)

nscom == L(nsl, com)
nsorg == L(nsl, org)
norg == L(<<110>>, org)      \* the host of org that other zones use
nsacom == L(nsl, acom)
nsxacom == L(nsl, xacom)
nom == L(nsl, <<<<111, 109>>>>)

\* the choices
NComs == {"in", "both"}
NAs == {"in", "parent", "else", "mixed", "circle"}
NXs == {"none", "in", "parent", "grand", "else"}
Holds == {"a", "alias", "across", "two", "nowhere", "empty", "loop", "sub"}
Ttls == {<<3600, 3600>>, <<1, 3600>>, <<3600, 1>>, <<0, 60>>}
Styles == {0, 1, 4, 3, 8 + 16, 64 + 128}
Qs == {<<L(www, acom), 1>>, <<acom, 2>>, <<L(www, xacom), 1>>, <<L(www, aorg), 1>>, <<L(www, acom), 16>>, <<nsacom, 1>>,
       <<L(<<113>>, xacom), 1>>, <<norg, 1>>, <<L(www, acom), 5>>, <<com, 2>>}
Pauses == {0, 2000, 61000}

VARIABLES ch, qs, st
vars == <<ch, qs, st>>
AllChoices == [nc : NComs, na : NAs, nx : NXs, d : Holds, ttl : Ttls]
Init == /\ ch \in {c \in AllChoices : Cardinality({i \in 1..5 : CASE i = 1 -> c.nc # "in" [] i = 2 -> c.na # "in" [] i = 3 -> c.nx # "none"
                                                                     [] i = 4 -> c.d # "a" [] OTHER -> c.ttl # <<3600, 3600>>}) <= Dist}
        /\ qs = <<>> /\ st = 0
Next == /\ Len(qs) < Depth
        /\ \E q \in Qs, p \in IF Len(qs) + 1 = Depth THEN {0} ELSE Pauses : qs' = Append(qs, <<q[1], q[2], p>>) /\ UNCHANGED <<ch, st>>
Spec == Init /\ [][Next]_vars

tn == ch.ttl[1]      \* of NS records and the addresses of servers
td == ch.ttl[2]      \* of the rest
NsA == CASE ch.na = "in" -> <<nsacom>> [] ch.na = "parent" -> <<L(<<110>>, com)>> [] ch.na = "else" -> <<norg>>
         [] ch.na = "mixed" -> <<norg, nsacom>> [] OTHER -> <<nsacom, L(nsl, aorg)>>
NsX == CASE ch.nx = "in" -> <<nsxacom>> [] ch.nx = "parent" -> <<L(<<110>>, acom)>> [] ch.nx = "grand" -> <<L(<<110>>, com)>>
         [] OTHER -> <<L(<<110>>, aorg)>>
Many(z, s) == [i \in 1..Len(s) |-> NS(z, tn, s[i])]
Has(s, n) == \E i \in 1..Len(s) : s[i] = n
Opt(b, s) == IF b THEN s ELSE <<>>

W == [style |-> 0, zones |->
  <<[zone |-> <<>>, recs |-> <<>>],
    [zone |-> com, recs |-> <<SOA(com), NS(com, tn, nscom), A(nscom, tn, 1, 1)>> \o Opt(ch.nc = "both", <<NS(com, tn, norg)>>)
                            \o Opt(Has(NsA, L(<<110>>, com)) \/ (ch.nx = "grand"), <<A(L(<<110>>, com), tn, 1, 2)>>)],
    [zone |-> org, recs |-> <<SOA(org), NS(org, tn, nsorg), A(nsorg, tn, 2, 1), A(norg, tn, 2, 2), TX(L(www, org), td)>>],
    [zone |-> aorg, recs |-> <<SOA(aorg), NS(aorg, tn, L(nsl, aorg)), A(L(nsl, aorg), tn, 5, 1), A(L(www, aorg), td, 9, 1), A(L(www, aorg), td, 9, 2)>>
                             \o Opt(ch.na = "circle", <<NS(aorg, tn, nsacom)>>)
                             \o Opt(ch.nx = "else", <<A(L(<<110>>, aorg), tn, 5, 2)>>)],
    [zone |-> acom, recs |-> <<SOA(acom)>> \o Many(acom, NsA) \o Opt(Has(NsA, nsacom), <<A(nsacom, tn, 3, 1)>>)
                             \o Opt(ch.nx = "parent", <<A(L(<<110>>, acom), tn, 3, 2)>>)
                             \o (CASE ch.d = "a" -> <<A(L(www, acom), td, 9, 3), TX(L(www, acom), td)>>
                                   [] ch.d = "alias" -> <<CN(L(www, acom), td, L(<<98>>, acom)), A(L(<<98>>, acom), td, 9, 4)>>
                                   [] ch.d = "across" -> <<CN(L(www, acom), td, L(www, aorg))>>
                                   [] ch.d = "two" -> <<CN(L(www, acom), td, L(<<98>>, acom)), CN(L(<<98>>, acom), tn, L(www, aorg))>>
                                   [] ch.d = "nowhere" -> <<CN(L(www, acom), td, L(<<98>>, aorg))>>
                                   [] ch.d = "empty" -> <<A(L(a, L(www, acom)), td, 9, 5)>>
                                   [] ch.d = "loop" -> <<CN(L(www, acom), td, L(<<98>>, acom)), CN(L(<<98>>, acom), td, L(www, acom))>>
                                   [] OTHER -> IF ch.nx = "none" THEN <<CN(L(www, acom), td, acom)>> ELSE <<CN(L(www, acom), td, L(www, xacom))>>)]>>
  \o Opt(ch.nx # "none", <<[zone |-> xacom, recs |-> <<SOA(xacom)>> \o Many(xacom, NsX) \o Opt(ch.nx = "in", <<A(nsxacom, tn, 4, 1)>>)
                                                      \o <<A(L(www, xacom), td, 9, 6)>>]>>)]

\* the style follows from the choices, so that each meets all of them
Weight == Len(NsA) * 7 + Len(NsX) * 3 + Len(W.zones[5].recs) * 5 + tn + td + Len(qs) + qs[1][2] + Len(qs[1][1]) * 11 + qs[Len(qs)][3] \div 1000
StyleSeq == SetToSeq(Styles)
Pick == StyleSeq[1 + (Weight % Cardinality(Styles))]

Gen == (Len(qs) = Depth) =>
         LET w == TLCEval(W) IN
         WorldOk(w) => PrintT(<<"GEN", ToJson([w |-> [w EXCEPT !.style = Pick], qs |-> qs,
                                               conf |-> [ns |-> 3, retries |-> 1, cname |-> 4, rt |-> 500, strict |-> FALSE]])>>)
=============================================================================
