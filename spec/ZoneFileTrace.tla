--------------------------- MODULE ZoneFileTrace ----------------------------
(* N05.  A case is [L, r: [ok, acc, auth, subs]]: a load, whether it was       *)
(* accepted, and the records the program then holds.                           *)
EXTENDS ZoneFile, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)

Same(got, want) == Range([i \in 1..Len(got) |-> LowR(got[i])]) = Range([i \in 1..Len(want) |-> LowR(want[i])])
                   /\ Len(got) <= Len(want)

Match(c, e) ==
    \/ e.v = "any"
    \/ e.v \in {"bad", "opt"} /\ ~c.r.acc
    \/ /\ e.v \in {"ok", "opt"} /\ c.r.acc
       /\ Same(c.r.auth, e.Z.recs)
       /\ \A k \in 1..Len(e.Z.subs) : Same(c.r.subs[k], e.Z.subs[k].recs)

Ok(c) == c.r.ok /\ (Match(c, TLCEval(Load(c.L, FALSE))) \/ Match(c, TLCEval(Load(c.L, TRUE))))

VARIABLES i, bad, cnt
Init == i = 1 /\ bad = 0 /\ cnt = [ok |-> 0, opt |-> 0, bad |-> 0, any |-> 0]
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ LET v == Load(T[i].L, FALSE).v IN cnt' = [cnt EXCEPT ![v] = @ + 1]
        /\ (i = Len(T) => PrintT(<<"COUNT", ToJson(cnt')>>))
        /\ IF Ok(T[i]) THEN bad' = bad
           ELSE /\ PrintT(<<"BAD", T[i].i>>)
                /\ (bad < 3 => PrintT(<<"EXPECTED", T[i].i, ToJson(Load(T[i].L, FALSE))>>))
                /\ bad' = bad + 1
Spec == Init /\ [][Next]_<<i, bad, cnt>>
=============================================================================
