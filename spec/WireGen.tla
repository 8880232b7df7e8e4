------------------------------ MODULE WireGen -------------------------------
(* Messages composed step by step, encoded as RFC 1035 prescribes with every   *)
(* style of compression.  TLC checks that the decoding of Wire.tla inverts the *)
(* encoding, and prints the messages, which the harness then replays into the  *)
(* real decoder (bytes) and the real encoder (messages).                       *)
EXTENDS Wire, Json

CONSTANTS MaxRecs, Deep

a == <<97>>
R == <<>>
A == <<a>>
BA == <<<<98>>, a>>
UBA == <<<<66>>, <<65>>>>
CBA == <<<<99, 45, 49>>, <<98>>, a>>
Names == IF Deep THEN {R, A, BA, UBA, CBA} ELSE {R, BA, UBA, CBA}

T1 == <<0, 0, 0, 60>>
T2 == <<255, 255, 255, 255>>
D(nm, by, nu) == [nm |-> nm, by |-> by, nu |-> nu]
RR(n, t, ttl, d) == [n |-> n, t |-> t, c |-> 1, ttl |-> ttl, d |-> d]

Pool ==
    {RR(n, 1, T2, D(<<>>, <<<<1, 0, 255, 192>>>>, <<>>)) : n \in Names}
    \cup {RR(BA, t, T1, D(<<n>>, <<>>, <<>>)) : t \in IF Deep THEN {2, 5, 12} ELSE {2}, n \in Names}
    \cup {RR(BA, 5, T1, D(<<CBA>>, <<>>, <<>>)), RR(CBA, 12, T1, D(<<A>>, <<>>, <<>>))}
    \cup {RR(A, 6, T1, D(<<BA, n>>, <<<<0, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 255, 254, 253, 252>>>>, <<>>)) : n \in {R, CBA}}
    \cup {RR(A, 11, T1, D(<<>>, <<<<1, 2, 3, 4>>, <<6>>>>, p)) : p \in {<<>>, <<0>>, <<7, 8>>, <<25>>}}
    \cup {RR(A, 13, T1, D(<<>>, s, <<>>)) : s \in {<<<<>>, <<>>>>, <<<<120>>, <<46, 0>>>>}}
    \cup {RR(A, 15, T1, D(<<n>>, <<>>, <<p>>)) : n \in {R, CBA}, p \in {0, 258}}
    \cup {RR(A, 16, T1, D(<<>>, s, <<>>)) : s \in {<<<<>>>>, <<<<120>>, <<>>, <<192, 12>>>>, <<<<92, 34, 59>>>>} \ {<<<<120>>, <<>>, <<192, 12>>>>}}

(* Encoding.  tab holds pairs of a name suffix and its position.               *)
B16(n) == <<n \div 256, n % 256>>
RECURSIVE EncName(_, _, _, _)
EncName(n, pos, tab, comp) ==
    IF n = <<>> THEN [b |-> <<0>>, tab |-> tab]
    ELSE LET hits == {e \in tab : e[1] = n} IN
         IF comp /\ hits # {} THEN [b |-> LET p == (CHOOSE e \in hits : TRUE)[2] IN <<192 + p \div 256, p % 256>>, tab |-> tab]
         ELSE LET rest == EncName(Tail(n), pos + 1 + Len(Head(n)), IF hits = {} THEN tab \cup {<<n, pos>>} ELSE tab, comp)
              IN [b |-> <<Len(Head(n))>> \o Head(n) \o rest.b, tab |-> rest.tab]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE <<Len(Head(ss))>> \o Head(ss) \o Cat(Tail(ss))
BitMap(ps) == IF ps = <<>> THEN <<>>
              ELSE [k \in 1..(ps[Len(ps)] \div 8 + 1) |->
                      LET bits == {j \in 1..8 : \E x \in 1..Len(ps) : ps[x] = (k - 1) * 8 + j - 1}
                          v(j) == IF j \in bits THEN Pow2[j] ELSE 0
                      IN v(1) + v(2) + v(3) + v(4) + v(5) + v(6) + v(7) + v(8)]

EncData(r, pos, tab, comp) ==
    CASE r.t \in {2, 5, 12} -> EncName(r.d.nm[1], pos, tab, comp)
      [] r.t = 6 -> LET x == EncName(r.d.nm[1], pos, tab, comp)
                        y == EncName(r.d.nm[2], pos + Len(x.b), x.tab, comp)
                    IN [b |-> x.b \o y.b \o r.d.by[1], tab |-> y.tab]
      [] r.t = 15 -> LET x == EncName(r.d.nm[1], pos + 2, tab, comp) IN [b |-> B16(r.d.nu[1]) \o x.b, tab |-> x.tab]
      [] r.t = 1 -> [b |-> r.d.by[1], tab |-> tab]
      [] r.t = 11 -> [b |-> r.d.by[1] \o r.d.by[2] \o BitMap(r.d.nu), tab |-> tab]
      [] r.t \in {13, 16} -> [b |-> Cat(r.d.by), tab |-> tab]

\* comp: 0 no compression, 1 owner names, 2 every name
EncQ(e, pos, tab, comp) ==
    LET x == EncName(e.n, pos, tab, comp > 0) IN [b |-> x.b \o B16(e.t) \o B16(e.c), tab |-> x.tab]
EncR(e, pos, tab, comp) ==
    LET x == EncName(e.n, pos, tab, comp > 0)
        y == EncData(e, pos + Len(x.b) + 10, x.tab, comp = 2)
    IN [b |-> x.b \o B16(e.t) \o B16(e.c) \o e.ttl \o B16(Len(y.b)) \o y.b, tab |-> y.tab]

RECURSIVE EncAll(_, _, _, _, _)
EncAll(es, isQ, b, tab, comp) ==
    IF es = <<>> THEN [b |-> b, tab |-> tab]
    ELSE LET x == IF isQ THEN EncQ(Head(es), Len(b), tab, comp) ELSE EncR(Head(es), Len(b), tab, comp)
         IN EncAll(Tail(es), isQ, TLCEval(b \o x.b), TLCEval(x.tab), comp)

EncHeader(h) == B16(h.id) \o <<h.qr * 128 + h.op * 8 + h.aa * 4 + h.tc * 2 + h.rd, h.ra * 128 + h.z * 16 + h.rc>>
                \o B16(h.qc) \o B16(h.ac) \o B16(h.nc) \o B16(h.rcnt)

Encode(m, comp) ==
    LET q == EncAll(m.q, TRUE, EncHeader(m.h), {}, comp)
    IN EncAll(m.an \o m.ns \o m.ar, FALSE, q.b, q.tab, comp).b

-----------------------------------------------------------------------------
VARIABLES q, an, ns, ar, fin
vars == <<q, an, ns, ar, fin>>

NRecs == Len(an) + Len(ns) + Len(ar)

Msg == [h |-> [id |-> 4660 + NRecs, qr |-> Len(q), op |-> 0, aa |-> IF an = <<>> THEN 0 ELSE 1, tc |-> IF ns = <<>> THEN 0 ELSE 1,
               rd |-> IF ar = <<>> THEN 1 ELSE 0, ra |-> IF an = <<>> THEN 1 ELSE 0, z |-> 0, rc |-> IF an = <<>> THEN 3 ELSE 0,
               qc |-> Len(q), ac |-> Len(an), nc |-> Len(ns), rcnt |-> Len(ar)],
        q |-> q, an |-> an, ns |-> ns, ar |-> ar]

Init == q = <<>> /\ an = <<>> /\ ns = <<>> /\ ar = <<>> /\ fin = -1

AddQ == /\ q = <<>> /\ NRecs = 0
        /\ \E n \in Names, t \in IF Deep THEN SupportedTypes ELSE {1, 16} : q' = <<[n |-> n, t |-> t, c |-> 1]>>
        /\ UNCHANGED <<an, ns, ar, fin>>
AddAn == NRecs < MaxRecs /\ ns = <<>> /\ ar = <<>> /\ \E r \in Pool : an' = Append(an, r) /\ UNCHANGED <<q, ns, ar, fin>>
AddNs == NRecs < MaxRecs /\ ar = <<>> /\ \E r \in Pool : ns' = Append(ns, r) /\ UNCHANGED <<q, an, ar, fin>>
AddAr == NRecs < MaxRecs /\ \E r \in Pool : ar' = Append(ar, r) /\ UNCHANGED <<q, an, ns, fin>>
Finish == \E c \in 0..2 : fin' = c /\ UNCHANGED <<q, an, ns, ar>>

Next == fin = -1 /\ (AddQ \/ AddAn \/ AddNs \/ AddAr \/ Finish)
Spec == Init /\ [][Next]_vars

\* at most one question is combined with the larger messages
Bound == NRecs < 2 \/ q = <<>> \/ q = <<[n |-> BA, t |-> 1, c |-> 1]>>

RoundTrip ==
    fin >= 0 => LET b == TLCEval(Encode(Msg, fin))
                    s == TLCEval(Decode(b))
                IN /\ s.v = "ok" /\ s.rest = 0 /\ s.m = LowM(Msg)
                   /\ PrintT(<<"GEN", ToJson([b |-> b])>>)
                   /\ fin = 0 => PrintT(<<"GENM", ToJson([m |-> Msg])>>)
=============================================================================
