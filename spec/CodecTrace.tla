----------------------------- MODULE CodecTrace -----------------------------
(* Judges recorded runs of the real encoder and decoder (C01, C02).            *)
EXTENDS Wire, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

DecOk(c) ==
    LET s == TLCEval(Decode(c.b)) IN
    IF c.r.ok THEN s.v # "bad" /\ LowM(c.r.m) = s.m
    ELSE c.r.why = "err" /\ s.v # "ok"

\* an encoded message is read back as it was; only features that a reader may refuse
\* (op codes other than QUERY, strings that are not ASCII) make the reading "lax"
EncOk(c) ==
    /\ c.r.ok
    /\ LET s == TLCEval(Decode(c.r.b)) IN s.v # "bad" /\ (s.v = "lax" => c.lax \/ c.m.h.op # 0) /\ s.rest = 0 /\ s.m = LowM(c.m)

Ok(c) == IF c.k = "enc" THEN EncOk(c) ELSE DecOk(c)

Expl(c) == IF c.k = "enc" THEN (IF c.r.ok THEN Decode(c.r.b) ELSE [v |-> "encoder failed"]) ELSE Decode(c.b)

VARIABLES i, bad
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN bad' = bad
           ELSE /\ PrintT(<<"BAD", T[i].i>>)
                /\ (bad < 3 => PrintT(<<"EXPECTED", ToJson(Expl(T[i]))>>))
                /\ bad' = bad + 1
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
