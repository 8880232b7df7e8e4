----------------------------- MODULE ProgTrace ------------------------------
(* F01.  A case is [s, r]: a scenario of ProgGen and what was observed of the    *)
(* program run with that configuration (times in milliseconds).  What the        *)
(* program may do is a function of the configuration alone.                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
Early == 60        \* timers and clocks may differ by this much
Late == 1600       \* scheduling on a busy machine
Min2(a, b) == IF a < b THEN a ELSE b
Set(q) == {q[k] : k \in 1..Len(q)}
Rank(l) == CASE l \in {"Error", "ERROR"} -> 1 [] l \in {"Warn", "WARN"} -> 2 [] l \in {"Info", "INFO"} -> 3
             [] l \in {"Debug", "DEBUG"} -> 4 [] l \in {"Trace", "TRACE"} -> 5
\* ------------------------------------------------------------ the pool of a transport
\* busy workers, each for `hold` ms at least (and `most` at most), before a request
Served(o, threads, hold, most) ==
    IF o.busy < threads THEN o.ms >= 0 /\ o.ms < hold - 100
    ELSE o.ms + o.lag >= hold - Early /\ o.ms <= most + Late
Held(ms, hold) == ms >= hold - Early /\ ms <= hold + Late
\* time limits set on sockets: none is longer than configured, one is as long
Limit(r, c, d, ms) ==
    LET e == {x.ms : x \in {x \in Set(r.sock) : x.c = c /\ x.d = d}} IN
    e = {} \/ ((\A x \in e : x <= ms) /\ (\E x \in e : x >= ms - Early))
\* ------------------------------------------------------------ name server
Ns(s, r) ==
    /\ r.ttls.h # <<>> /\ Set(r.ttls.h) = {s.ttl}
    /\ r.ttls.a # <<>> /\ Set(r.ttls.a) = {s.ttl}
    /\ r.ttls.s # <<>> /\ Set(r.ttls.s) = {s.sttl}
    /\ r.traces = 0
    /\ "deaf" \in DOMAIN r => r.deaf.busy = s.tth /\ Served(r.deaf, s.tth, s.twt * 1000, 3 * s.twt * 1000)
\* ------------------------------------------------------------ resolver
Servers(s) == Min2(s.ns, 13)
Wait(s) == Servers(s) * s.re * s.rt * 1000
Chain(s, c) ==
    LET found == c.rc = 0 /\ c.an = c.k + 1
        refused == c.rc = 2
    IN IF c.k < s.cn THEN found ELSE IF c.k = s.cn THEN found \/ refused ELSE refused
Rs(s, r) ==
    /\ \A k \in 1..Len(r.chains) : Chain(s, r.chains[k])
    /\ \A k \in 1..Len(r.slow) :
          /\ r.slow[k].rc = 2
          /\ Held(r.slow[k].ms, Wait(s))
          /\ Len(r.slow[k].per) = Servers(s) /\ Set(r.slow[k].per) = {s.re}
    /\ \A k \in 1..Len(r.quick) : Served(r.quick[k], s.uth, Wait(s), Wait(s))
    /\ Limit(r, "up", "r", s.rt * 1000)
    /\ Limit(r, "up", "w", s.wt * 1000)
    /\ LET shown == ~s.silent /\ Rank(s.level) >= 3 IN
       /\ (r.traces > 0) = shown
       /\ (r.tlines > 0) = shown
       /\ r.raw = (shown /\ s.verbose)
       /\ r.esc = (shown /\ s.color)
\* ------------------------------------------------------------ both
Levels(s, r) ==
    /\ \A l \in Set(r.levels) : Rank(l) <= Rank(s.level)
    /\ Rank(s.level) >= 3 => "INFO" \in Set(r.levels)
    /\ Rank(s.level) >= 4 => "DEBUG" \in Set(r.levels)
Runs(s, r) ==
    /\ r.full /\ r.exit = -1 /\ ~r.cross
    /\ Len(r.tcp) = 2
    /\ \A k \in 1..2 : Served(r.tcp[k], s.tth, s.trt * 1000, s.trt * 1000)
    /\ \A k \in 1..Len(r.closes) : Held(r.closes[k], s.trt * 1000)
    /\ Limit(r, "udp", "w", s.uwt * 1000)
    /\ Limit(r, "tcp", "r", s.trt * 1000)
    /\ Limit(r, "tcp", "w", s.twt * 1000)
    /\ Levels(s, r)
    /\ IF s.prog = "ns" THEN Ns(s, r) ELSE Rs(s, r)
\* a configuration that cannot be served ends the program, with an error unless a server had already been started
Refused(s, r) == r.exit >= 0 /\ (s.broken \notin {"takenu", "takent"} => r.exit # 0)
Ok(c) == /\ c.r.ok
         /\ ~c.r.run \/ (IF c.s.broken # "" THEN Refused(c.s, c.r) ELSE Runs(c.s, c.r))
VARIABLES i, cnt
Init == i = 1 /\ cnt = [run |-> 0, refused |-> 0, skipped |-> 0]
Kind(c) == IF ~c.r.ok \/ ~c.r.run THEN "skipped" ELSE IF c.s.broken # "" THEN "refused" ELSE "run"
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ cnt' = [cnt EXCEPT ![Kind(T[i])] = @ + 1]
        /\ IF Ok(T[i]) THEN TRUE ELSE PrintT(<<"BAD", T[i].i>>)
        /\ (i = Len(T) => PrintT(<<"COUNT", ToJson(cnt')>>))
Spec == Init /\ [][Next]_<<i, cnt>>
=============================================================================
