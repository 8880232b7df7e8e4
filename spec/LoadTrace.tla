----------------------------- MODULE LoadTrace ------------------------------
(* N06: a zone was accepted exactly if it is consistent.  A case is            *)
(* [z, r: [ok, acc]].                                                          *)
EXTENDS Zone, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
Ok(c) == c.r.ok /\ c.r.acc = Consistent(c.z)
VARIABLES i
Init == i = 1
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN TRUE ELSE PrintT(<<"BAD", T[i].i>>)
Spec == Init /\ [][Next]_i
=============================================================================
