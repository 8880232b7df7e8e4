------------------------------- MODULE Cache --------------------------------
(* K01: the shared cache is one map from keys to values with an expiry.        *)
(* An entry [v, e] is live before the moment e; v = 0 means there is none.     *)
(* Expired entries may stay until they are overwritten, removed or cleaned.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Keys
None == [v |-> 0, e |-> 0]
Nothing == [f |-> FALSE, v |-> 0, e |-> 0]
Live(x, n) == x.v # 0 /\ x.e > n
Found(x, n) == IF Live(x, n) THEN [f |-> TRUE, v |-> x.v, e |-> x.e] ELSE Nothing
Empty == [k \in Keys |-> None]

\* effect of operation o = [op, key, ttl, v] at a moment; n1, n2 are readings of the clock
After(m, o, n1, n2) ==
    CASE o.op = "set" -> [m EXCEPT ![o.key] = [v |-> o.v, e |-> n1 + o.ttl]]
      [] o.op = "onf" -> IF Live(m[o.key], n2) THEN [m EXCEPT ![o.key].v = o.v] ELSE m
      [] o.op = "rem" -> [m EXCEPT ![o.key] = None]
      [] o.op = "clean" -> [k \in Keys |-> IF Live(m[k], n2) THEN m[k] ELSE None]
      [] OTHER -> m
Result(m, o, n2) ==
    CASE o.op \in {"set", "get", "onf", "rem"} -> Found(m[o.key], n2)
      [] OTHER -> Nothing
\* values that have to be, and values that may be, in memory
Must(m, n) == {m[k].v : k \in {x \in Keys : Live(m[x], n)}}
May(m) == {m[k].v : k \in {x \in Keys : m[x].v # 0}}
=============================================================================
