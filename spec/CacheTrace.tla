----------------------------- MODULE CacheTrace -----------------------------
(* K01.  A history is accepted if every operation takes effect at one moment   *)
(* between its call and its return.  Events, in the order in which they        *)
(* happened: call [t, op, key, ttl, v], ret [t, f, v, e], tick [ms], mem [ids] *)
(* (the values in memory while no operation runs), and for op = "dump" the     *)
(* values shown.                                                               *)
EXTENDS Cache, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
Threads == 1..6
Idle == [st |-> "idle"]
VARIABLES i, p, m, now, clk, pend
vars == <<i, p, m, now, clk, pend>>

Init == /\ i \in {j \in 1..Len(T) : T[j].r.ok}
        /\ p = 1 /\ m = Empty /\ now = 0 /\ clk = <<0>>
        /\ pend = [t \in Threads |-> Idle]
Evs == T[i].r.evs
E == Evs[p]
More == p <= Len(Evs)

Call == /\ More /\ E.k = "call"
        /\ pend' = [pend EXCEPT ![E.t] = [st |-> "called", o |-> E, from |-> Len(clk)]]
        /\ p' = p + 1 /\ UNCHANGED <<i, m, now, clk>>
Tick == /\ More /\ E.k = "tick"
        /\ now' = now + E.ms /\ clk' = Append(clk, now + E.ms)
        /\ p' = p + 1 /\ UNCHANGED <<i, m, pend>>
\* operations take effect no earlier than needed for the next return
Lin == /\ More /\ E.k = "ret" /\ pend[E.t].st = "called"
       /\ \E t \in {x \in Threads : pend[x].st = "called"} :
          \E a \in pend[t].from..Len(clk), b \in pend[t].from..Len(clk) :
             LET o == pend[t].o IN
             /\ (o.op \in {"get", "onf", "rem", "clean", "dump"} => a = b)
             /\ m' = After(m, o, clk[a], clk[b])
             /\ pend' = [pend EXCEPT ![t] = [st |-> "done", res |-> Result(m, o, clk[b]), o |-> o,
                                             must |-> Must(m, clk[b]), may |-> May(m)]]
       /\ UNCHANGED <<i, p, now, clk>>
Ret == /\ More /\ E.k = "ret" /\ pend[E.t].st = "done"
       /\ LET x == pend[E.t] IN
          IF x.o.op = "dump" THEN LET s == {E.ids[j] : j \in 1..Len(E.ids)} IN x.must \subseteq s /\ s \subseteq x.may
          ELSE x.res = [f |-> E.f, v |-> E.v, e |-> E.e]
       /\ pend' = [pend EXCEPT ![E.t] = Idle]
       /\ p' = p + 1 /\ UNCHANGED <<i, m, now, clk>>
Mem == /\ More /\ E.k = "mem"
       /\ LET s == {E.ids[j] : j \in 1..Len(E.ids)} IN Must(m, now) \subseteq s /\ s \subseteq May(m)
       /\ p' = p + 1 /\ UNCHANGED <<i, m, now, clk, pend>>
Done == /\ p = Len(Evs) + 1
        /\ p' = p + 1 /\ PrintT(<<"OK", T[i].i>>)
        /\ UNCHANGED <<i, m, now, clk, pend>>
Next == Call \/ Tick \/ Lin \/ Ret \/ Mem \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
