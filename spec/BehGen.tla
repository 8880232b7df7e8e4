------------------------------- MODULE BehGen -------------------------------
(* Behaviours of the name servers met on the way down (R05): a behaviour is a  *)
(* way to fail and how many attempts fail before the server replies properly   *)
(* (9: all of them), for every server of every level; with the limits of the   *)
(* configuration.  Kinds and levels are chosen by the constants.  "far" is a    *)
(* proper server whose address has to be looked up elsewhere; the kinds that   *)
(* begin with "un" are servers whose address cannot be found.                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Levels, Servers, Kinds, Counts, Confs

Good == [k |-> "good", f |-> 0]
Never == {"unres", "unnd", "unal", "undead", "unloop"}
Acts == {Good} \cup {[k |-> "far", f |-> 0] : x \in Kinds \cap {"far"}}
               \cup {[k |-> k, f |-> 9] : k \in Kinds \cap Never}
               \cup {[k |-> k, f |-> f] : k \in Kinds \ ({"far"} \cup Never), f \in Counts}
Level == UNION {[1..n -> Acts] : n \in 1..Servers}
ConfSet == CASE Confs = 1 -> {[ns |-> 2, retries |-> 2]}
             [] Confs = 2 -> {[ns |-> n, retries |-> r] : n \in {1, 2}, r \in {1, 2}}
             [] OTHER -> {[ns |-> n, retries |-> r] : n \in 1..3, r \in 1..3}

VARIABLES lv, conf
vars == <<lv, conf>>
Init == lv = <<>> /\ conf \in ConfSet
Next == Len(lv) < Levels /\ (\E x \in Level : lv' = Append(lv, x)) /\ UNCHANGED conf
Spec == Init /\ [][Next]_vars
Gen == (Len(lv) = Levels) =>
         PrintT(<<"GEN", ToJson([lv |-> lv, conf |-> [ns |-> conf.ns, retries |-> conf.retries, cname |-> 4, rt |-> 300, strict |-> TRUE]])>>)
=============================================================================
