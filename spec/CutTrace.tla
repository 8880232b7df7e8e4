------------------------------ MODULE CutTrace ------------------------------
(* C03.  A case is [k, m, full, r: [ok, raw]]: the message m that was handed   *)
(* to the transport for reply, the size of its complete encoding, and the raw  *)
(* bytes that came back: a datagram (k = "udp") or all bytes of the connection *)
(* (k = "tcp").                                                                *)
EXTENDS Wire, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)

Entries(m) == Len(m.q) + Len(m.an) + Len(m.ns) + Len(m.ar)

\* g is m without its last entries
Prefix(g, m) ==
    LET pre(x, y) == Len(x) <= Len(y) /\ \A j \in 1..Len(x) : x[j] = y[j]
    IN /\ pre(g.q, m.q) /\ pre(g.an, m.an) /\ pre(g.ns, m.ns) /\ pre(g.ar, m.ar)
       /\ (g.an # <<>> => g.q = m.q) /\ (g.ns # <<>> => g.q = m.q /\ g.an = m.an)
       /\ (g.ar # <<>> => g.q = m.q /\ g.an = m.an /\ g.ns = m.ns)

HeaderOf(g, m) == [g.h EXCEPT !.tc = 0, !.qc = m.h.qc, !.ac = m.h.ac, !.nc = m.h.nc, !.rcnt = m.h.rcnt] = m.h

Body(b, m0, full, max) ==
    LET m == TLCEval(LowM(m0))
        s == TLCEval(Decode(b))
    IN /\ Len(b) <= max /\ s.v # "bad" /\ s.rest = 0
       /\ HeaderOf(s.m, m)
       \* counts agree with what is there: everything in these messages is of a known type
       /\ s.m.h.qc = Len(s.m.q) /\ s.m.h.ac = Len(s.m.an) /\ s.m.h.nc = Len(s.m.ns) /\ s.m.h.rcnt = Len(s.m.ar)
       /\ Prefix(s.m, m)
       /\ (s.m.h.tc = 1) = (Entries(s.m) < Entries(m))
       /\ full <= max => Entries(s.m) = Entries(m)

Ok(c) == /\ c.r.ok
         /\ IF c.k = "udp" THEN Body(c.r.raw, c.m, c.full, 512)
            ELSE LET raw == c.r.raw IN
                 /\ Len(raw) >= 2 /\ U16(raw, 0) = Len(raw) - 2
                 /\ Body(Bytes(raw, 2, Len(raw) - 2), c.m, c.full, 65535)

VARIABLES i
Init == i = 1
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN TRUE ELSE PrintT(<<"BAD", T[i].i>>)
Spec == Init /\ [][Next]_i
=============================================================================
