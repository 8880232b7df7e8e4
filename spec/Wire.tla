-------------------------------- MODULE Wire --------------------------------
(* RFC 1035 message format: an operator that decodes a byte sequence.         *)
(*                                                                             *)
(* Decode(b) yields a record with                                              *)
(*   v   "ok"    b denotes exactly message m, a decoder has to deliver it      *)
(*       "lax"   b denotes m if it is delivered at all: features a decoder may *)
(*               refuse (forward pointers, very long pointer chains, types,    *)
(*               classes, op codes and result codes that are known but not     *)
(*               supported, non-ASCII strings, bytes after the message)        *)
(*       "bad"   b does not follow the format and has to be refused            *)
(*   m   the message                                                           *)
(* Numbers of 32 bits are kept as four bytes (TLC integers have 32 bits).      *)
EXTENDS Names, Integers, FiniteSets, TLC

SupportedTypes   == {1, 2, 5, 6, 11, 12, 13, 15, 16}
UnsupportedTypes == {3, 4, 7, 8, 9, 10, 14, 252, 253, 254, 255}
KnownClasses     == {1, 2, 3, 4, 255}
MaxJumps         == 15      \* chains up to this length have to be followed

At(b, p)  == b[p + 1]                      \* positions count from 0
U16(b, p) == At(b, p) * 256 + At(b, p + 1)
Bytes(b, p, n) == SubSeq(b, p + 1, p + n)

Bad == [v |-> "bad"]
Worse(a, b) == IF a = "bad" \/ b = "bad" THEN "bad"
               ELSE IF a = "lax" \/ b = "lax" THEN "lax" ELSE "ok"

-----------------------------------------------------------------------------
(* Names.  next is the position after the name in the original place.          *)
RECURSIVE RdName(_, _, _, _, _, _, _)
RdName(b, p, next, jumps, labels, size, v) ==
    IF p >= Len(b) THEN Bad
    ELSE LET c == At(b, p) IN
         IF c = 0 THEN
            IF size + 1 > 255 THEN Bad
            ELSE [v |-> v, n |-> labels, next |-> IF next < 0 THEN p + 1 ELSE next]
         ELSE IF c >= 192 THEN
            IF p + 1 >= Len(b) THEN Bad
            ELSE LET t == (c - 192) * 256 + At(b, p + 1) IN
                 IF t >= Len(b) THEN Bad
                 ELSE IF Cardinality(jumps) > 130 \/ t \in jumps THEN Bad
                 ELSE RdName(b, t, TLCEval(IF next < 0 THEN p + 2 ELSE next), TLCEval(jumps \cup {t}), labels, size,
                             IF t >= p \/ Cardinality(jumps) >= MaxJumps THEN "lax" ELSE v)
         ELSE IF c >= 64 THEN Bad
         ELSE IF p + 1 + c > Len(b) THEN Bad
         ELSE LET l == TLCEval(Bytes(b, p + 1, c)) IN
              IF ~LabelOk(l) \/ size + 1 + c + 1 > 255 THEN Bad
              ELSE RdName(b, TLCEval(p + 1 + c), next, jumps, TLCEval(Append(labels, l)), TLCEval(size + 1 + c), v)

Name(b, p) == RdName(b, p, -1, {}, <<>>, 0, "ok")

(* Character strings *)
Str(b, p) ==
    IF p >= Len(b) \/ p + 1 + At(b, p) > Len(b) THEN Bad
    ELSE LET s == Bytes(b, p + 1, At(b, p)) IN
         [v |-> IF \E i \in 1..Len(s) : s[i] >= 128 THEN "lax" ELSE "ok", s |-> s, next |-> p + 1 + At(b, p)]

RECURSIVE Strs(_, _, _, _, _)
Strs(b, p, end, acc, v) ==
    IF p = end THEN (IF acc = <<>> THEN Bad ELSE [v |-> v, s |-> acc, next |-> p])
    ELSE IF p > end THEN Bad
    ELSE LET r == Str(b, p) IN
         IF r.v = "bad" THEN Bad ELSE Strs(b, TLCEval(r.next), end, TLCEval(Append(acc, r.s)), TLCEval(Worse(v, r.v)))

Pow2 == <<128, 64, 32, 16, 8, 4, 2, 1>>
\* ascending list of the ports in the bit map; the first bit is the most significant one
PortsOf(bm0) == LET bm == TLCEval(bm0) IN
    SelectSeq([k \in 1..(8 * Len(bm)) |-> k - 1], LAMBDA k : (bm[(k \div 8) + 1] \div Pow2[(k % 8) + 1]) % 2 = 1)

(* Record data, in a uniform shape: names, byte strings, small numbers         *)
Rd(v, nm, by, nu) == [v |-> v, d |-> [nm |-> nm, by |-> by, nu |-> nu]]

Data(b, t, p, n) ==
    LET end == p + n IN
    IF end > Len(b) THEN Bad
    ELSE CASE t = 1 -> IF n = 4 THEN Rd("ok", <<>>, <<Bytes(b, p, 4)>>, <<>>) ELSE Bad
           [] t \in {2, 5, 12} ->
                LET r == Name(b, p) IN
                IF r.v = "bad" \/ (r.v # "bad" /\ r.next # end) THEN Bad ELSE Rd(r.v, <<r.n>>, <<>>, <<>>)
           [] t = 6 ->
                LET r == Name(b, p) IN
                IF r.v = "bad" THEN Bad
                ELSE LET s == Name(b, r.next) IN
                     IF s.v = "bad" THEN Bad
                     ELSE IF s.next + 20 # end THEN Bad
                     ELSE Rd(Worse(r.v, s.v), <<r.n, s.n>>, <<Bytes(b, s.next, 20)>>, <<>>)
           [] t = 11 ->
                IF n < 5 THEN Bad
                ELSE Rd("ok", <<>>, <<Bytes(b, p, 4), Bytes(b, p + 4, 1)>>, PortsOf(Bytes(b, p + 5, n - 5)))
           [] t = 13 ->
                LET r == Str(b, p) IN
                IF r.v = "bad" THEN Bad
                ELSE LET s == Str(b, r.next) IN
                     IF s.v = "bad" THEN Bad
                     ELSE IF s.next # end THEN Bad
                     ELSE Rd(Worse(r.v, s.v), <<>>, <<r.s, s.s>>, <<>>)
           [] t = 15 ->
                IF n < 3 THEN Bad
                ELSE LET r == Name(b, p + 2) IN
                     IF r.v = "bad" THEN Bad
                     ELSE IF r.next # end THEN Bad
                     ELSE Rd(r.v, <<r.n>>, <<>>, <<U16(b, p)>>)
           [] t = 16 ->
                LET r == Strs(b, p, end, <<>>, "ok") IN
                IF r.v = "bad" THEN Bad ELSE Rd(r.v, <<>>, r.s, <<>>)

(* One question: [v, next] and q if it is of a supported type and class        *)
Quest(b, p) ==
    LET r == Name(b, p) IN
    IF r.v = "bad" THEN Bad
    ELSE IF r.next + 4 > Len(b) THEN Bad
    ELSE LET t == U16(b, r.next)
             c == U16(b, r.next + 2)
             keep == t \in SupportedTypes /\ c = 1
             v2 == IF t \in UnsupportedTypes \/ (t \in SupportedTypes /\ c # 1) THEN "lax" ELSE "ok"
         IN [v |-> Worse(r.v, v2), next |-> r.next + 4, keep |-> keep,
             e |-> [n |-> Lower(r.n), t |-> t, c |-> c],
             unsup |-> t \in UnsupportedTypes \/ (t \in SupportedTypes /\ c \in KnownClasses \ {1}),
             unknown |-> (t \notin SupportedTypes \cup UnsupportedTypes) \/ (c \notin KnownClasses)]

Rec(b, p) ==
    LET r == Name(b, p) IN
    IF r.v = "bad" THEN Bad
    ELSE IF r.next + 10 > Len(b) THEN Bad
    ELSE LET t == U16(b, r.next)
             c == U16(b, r.next + 2)
             n == U16(b, r.next + 8)
             q == r.next + 10
         IN IF q + n > Len(b) THEN Bad
            ELSE IF t \notin SupportedTypes
                 THEN [v |-> Worse(r.v, IF t \in UnsupportedTypes THEN "lax" ELSE "ok"),
                       next |-> q + n, keep |-> FALSE]
            ELSE LET d == Data(b, t, q, n) IN
                 IF d.v = "bad" THEN (IF c = 1 THEN Bad ELSE [v |-> "lax", next |-> q + n, keep |-> FALSE])
                 ELSE [v |-> Worse(Worse(r.v, d.v), IF c = 1 THEN "ok" ELSE "lax"), next |-> q + n, keep |-> c = 1,
                       e |-> [n |-> Lower(r.n), t |-> t, c |-> c, ttl |-> Bytes(b, r.next + 4, 4),
                              d |-> [d.d EXCEPT !.nm = [i \in 1..Len(d.d.nm) |-> Lower(d.d.nm[i])]]]]

RECURSIVE Sect(_, _, _, _, _, _)
Sect(b, p, n, acc, v, isQ) ==
    IF n = 0 THEN [v |-> v, next |-> p, es |-> acc]
    ELSE LET r == IF isQ THEN Quest(b, p) ELSE Rec(b, p) IN
         IF r.v = "bad" THEN Bad
         ELSE Sect(b, TLCEval(r.next), TLCEval(n - 1), TLCEval(IF r.keep THEN Append(acc, r.e) ELSE acc), TLCEval(Worse(v, r.v)), isQ)

-----------------------------------------------------------------------------
Header(b) ==
    LET f == At(b, 2)
        g == At(b, 3)
    IN [id |-> U16(b, 0), qr |-> f \div 128, op |-> (f \div 8) % 16, aa |-> (f \div 4) % 2,
        tc |-> (f \div 2) % 2, rd |-> f % 2, ra |-> g \div 128, z |-> (g \div 16) % 8, rc |-> g % 16,
        qc |-> U16(b, 4), ac |-> U16(b, 6), nc |-> U16(b, 8), rcnt |-> U16(b, 10)]

HeaderReadable(b) == Len(b) >= 12 /\ Header(b).op \in 0..2 /\ Header(b).rc \in 0..5

Decode(b) ==
    IF Len(b) < 12 THEN Bad
    ELSE LET h == Header(b)
             vh == IF h.op # 0 \/ h.rc > 5 THEN "lax" ELSE "ok"
             q == Sect(b, 12, h.qc, <<>>, vh, TRUE)
         IN IF q.v = "bad" THEN Bad
            ELSE LET an == Sect(b, q.next, h.ac, <<>>, q.v, FALSE) IN
                 IF an.v = "bad" THEN Bad
                 ELSE LET ns == Sect(b, an.next, h.nc, <<>>, an.v, FALSE) IN
                      IF ns.v = "bad" THEN Bad
                      ELSE LET ar == Sect(b, ns.next, h.rcnt, <<>>, ns.v, FALSE) IN
                           IF ar.v = "bad" THEN Bad
                           ELSE [v |-> IF ar.next < Len(b) THEN Worse(ar.v, "lax") ELSE ar.v,
                                 rest |-> Len(b) - ar.next,
                                 m |-> [h |-> h, q |-> q.es, an |-> an.es, ns |-> ns.es, ar |-> ar.es]]

\* names of a message given in JSON are compared ignoring case
LowE(e) == [e EXCEPT !.n = Lower(e.n)]
LowR(e) == [e EXCEPT !.n = Lower(e.n), !.d = [e.d EXCEPT !.nm = [i \in 1..Len(e.d.nm) |-> Lower(e.d.nm[i])]]]
LowM(m) == [m EXCEPT !.q  = [i \in 1..Len(m.q)  |-> LowE(m.q[i])],
                     !.an = [i \in 1..Len(m.an) |-> LowR(m.an[i])],
                     !.ns = [i \in 1..Len(m.ns) |-> LowR(m.ns[i])],
                     !.ar = [i \in 1..Len(m.ar) |-> LowR(m.ar[i])]]
=============================================================================
