------------------------------ MODULE LifeGen -------------------------------
(* Scenarios for the real servers: what becomes of each transport and when,    *)
(* the addresses, the requests being handled, a failing thread creation.       *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Delays, Pools, Reqs, Full
VARIABLE s
\* <<outcome, delay>>; outcome 2 (tcp only): another program has the port and does not answer
Outcomes == {0, 1} \X Delays
Base == [v6 : BOOLEAN, any : BOOLEAN, same : BOOLEAN, u : Outcomes, t : Outcomes \cup {<<2, 0>>}, thr : 0..7, req : Reqs, pool : Pools]
Failing(x) == x.u[1] # 0 \/ x.t[1] # 0
Simple(x) == ~x.v6 /\ ~x.any
\* quick: every failure, delay and load on one address; the other addresses with fewer of them
Chosen(x) ==
    /\ (x.t[1] = 2 => x.u[1] = 0 /\ x.same = FALSE)
    /\ (x.thr # 0 => ~Failing(x) /\ x.u[2] = 0 /\ x.t[2] = 0 /\ x.req = "none" /\ x.thr <= 2 + 2 * x.pool)
    /\ (x.req # "none" => x.pool > 1)
    /\ (x.u[1] = 1 /\ x.t[1] = 1 => x.req = "none")
    /\ (Full \/ (/\ (~Simple(x) => x.req = "none" /\ x.pool = 2 /\ x.thr = 0 /\ (x.u[2] = 0 \/ x.t[2] = 0))
                 /\ (x.req = "long" => x.u[1] # x.t[1] /\ x.same)
                 /\ (~Failing(x) => x.u[2] + x.t[2] = 0)
                 /\ (x.thr # 0 => x.same)))
Init == s \in {x \in Base : Chosen(x)}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Gen == PrintT(<<"GEN", ToJson(s)>>)
=============================================================================
