----------------------------- MODULE NamesTrace -----------------------------
(* Judges the comparisons of the real name type (C05) and the names it accepts.*)
EXTENDS Names, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)

\* a and b are legal names; eq, ab (a in zone b), ba, hash (equal hashes), map (b found in a map under a)
PairOk(c) ==
    /\ c.r.ok
    /\ c.r.eq = SameName(c.a, c.b)
    /\ c.r.ab = InZone(c.a, c.b)
    /\ c.r.ba = InZone(c.b, c.a)
    /\ c.r.eq => c.r.hash
    /\ c.r.map = SameName(c.a, c.b)
    /\ c.r.top = SameName(c.a, c.b)
    /\ c.r.only = (InZone(c.a, c.b) /\ ~\E k \in 1..Len(c.subs) : InZone(c.a, c.subs[k]))
\* a text is accepted as a name exactly if it denotes a legal absolute name
TextOk(c) == c.r.ok = c.legal
Ok(c) == IF c.k = "pair" THEN PairOk(c) ELSE TextOk(c)

VARIABLES i, bad
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN bad' = bad ELSE PrintT(<<"BAD", T[i].i>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
