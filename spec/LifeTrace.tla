----------------------------- MODULE LifeTrace ------------------------------
(* T02.  A case is a scenario of LifeGen with what was seen of the real        *)
(* servers: ret, the time at which the run returned to its caller (-1: never); *)
(* us, ts, both: how often a request over UDP, TCP, both in turn was answered; *)
(* ua, ta: whether the transport is still served after the return.             *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
Max(a, b) == IF a > b THEN a ELSE b
Fails(x) == x[1] # 0
\* the moment of the first failure, and of the last outcome
FirstFail(c) == IF Fails(c.u) /\ Fails(c.t) THEN (IF c.u[2] < c.t[2] THEN c.u[2] ELSE c.t[2])
                ELSE IF Fails(c.u) THEN c.u[2] ELSE c.t[2]
Slack == 6500

Both(c) == c.r.ret = -1 /\ c.r.us > 0 /\ c.r.ts > 0 /\ c.r.both >= 5
Down(c) == /\ c.r.ret >= 0 /\ c.r.ret <= FirstFail(c) + Slack
           /\ ~c.r.ua /\ ~c.r.ta
Ok(c) == /\ c.r.ok
         /\ IF Fails(c.u) \/ Fails(c.t) THEN Down(c) /\ c.r.ret >= FirstFail(c) - 20 /\ ~c.r.died
            ELSE IF c.thr # 0 THEN Both(c) \/ Down(c)
            ELSE Both(c)
VARIABLES i
Init == i = 1
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN TRUE ELSE PrintT(<<"BAD", T[i].i>>)
Spec == Init /\ [][Next]_i
=============================================================================
