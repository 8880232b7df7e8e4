----------------------------- MODULE ConfTrace ------------------------------
(* F01.  A case is [prog, fs, file, arg, full, r: [ok, acc, got]]: the fields  *)
(* written, what was done to the whole file ("plain", "cut" after arg bytes,   *)
(* "tail" bytes appended, "utf" damaged, "gone", "dir", "noise"), its full     *)
(* length; whether it was accepted and the fields read back.                   *)
EXTENDS Conf, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
White(s) == \A k \in 1..Len(s) : s[k] \in {32, 9, 10, 13}
V(c) == CASE c.file = "plain" -> Verdict(c.fs)
          [] c.file = "tail" -> IF White(c.tail) THEN Verdict(c.fs) ELSE "bad"
          [] c.file = "cut" -> IF c.arg >= c.full THEN Verdict(c.fs) ELSE "bad"
          [] c.file = "noise" -> "any"
          [] OTHER -> "bad"
Got(c, p) == c.r.got[CHOOSE k \in 1..Len(c.r.got) : c.r.got[k].p = p].v
Has(c, p) == \E k \in 1..Len(c.r.got) : c.r.got[k].p = p
Ok(c) == /\ c.r.ok
         /\ LET v == TLCEval(V(c)) IN
            /\ (v = "ok" => c.r.acc) /\ (v = "bad" => ~c.r.acc)
            /\ (c.r.acc /\ c.file # "noise" => \A k \in 1..Len(c.fs) :
                    Type(c.fs[k].p) = "group" \/ (Has(c, c.fs[k].p) /\ Same(c.fs[k].p, Got(c, c.fs[k].p), c.fs[k].v)))
VARIABLES i, cnt
Init == i = 1 /\ cnt = [ok |-> 0, any |-> 0, bad |-> 0]
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ cnt' = [cnt EXCEPT ![V(T[i])] = @ + 1]
        /\ IF Ok(T[i]) THEN TRUE ELSE PrintT(<<"BAD", T[i].i>>)
        /\ (i = Len(T) => PrintT(<<"COUNT", ToJson(cnt')>>))
Spec == Init /\ [][Next]_<<i, cnt>>
=============================================================================
