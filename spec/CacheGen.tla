------------------------------ MODULE CacheGen ------------------------------
(* All sequential histories of a cache over two keys, and the laws they obey.  *)
EXTENDS Cache, Json, TLC
CONSTANTS Depth
VARIABLES m, now, hist, ghost
\* ghost: for every key what was stored last and not removed, with its expiry
Ops == {[op |-> "set", key |-> k, ttl |-> t] : k \in Keys, t \in {0, 1000, 2000}}
       \cup {[op |-> o, key |-> k, ttl |-> 0] : k \in Keys, o \in {"get", "onf", "rem"}}
       \cup {[op |-> "clean", key |-> 1, ttl |-> 0], [op |-> "tick", key |-> 1, ttl |-> 1000]}
Init == m = Empty /\ now = 0 /\ hist = <<>> /\ ghost = Empty
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops :
           LET x == [op |-> o.op, key |-> o.key, ttl |-> o.ttl, v |-> Len(hist) + 1] IN
           /\ (hist = <<>> => o.key = 1 /\ o.op = "set")
           /\ hist' = Append(hist, x)
           /\ IF o.op = "tick" THEN now' = now + o.ttl /\ UNCHANGED <<m, ghost>>
              ELSE /\ m' = After(m, x, now, now) /\ now' = now
                   /\ ghost' = CASE o.op = "set" -> [ghost EXCEPT ![o.key] = [v |-> x.v, e |-> now + o.ttl]]
                                 [] o.op = "rem" -> [ghost EXCEPT ![o.key] = None]
                                 [] o.op = "onf" /\ ghost[o.key].v # 0 /\ now < ghost[o.key].e -> [ghost EXCEPT ![o.key].v = x.v]
                                 [] OTHER -> ghost
Spec == Init /\ [][Next]_<<m, now, hist, ghost>>
\* nothing expired is found, nothing live is lost
Exact == \A k \in Keys : Found(m[k], now) = Found(ghost[k], now)
Gen == (Len(hist) = Depth) => PrintT(<<"GEN", ToJson([ops |-> hist])>>)
=============================================================================
