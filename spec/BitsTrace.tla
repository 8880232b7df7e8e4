----------------------------- MODULE BitsTrace ------------------------------
(* Judges recorded operation sequences of the real buffer: every result, the   *)
(* cursors and the length after every operation, and the final bytes.          *)
EXTENDS BitsBuf, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)

StepOk(s, op, r) ==
    LET t == TLCEval(Eff(s, op)) IN
    /\ IsRead(op) => (r.ok = CanRead(s, op) /\ (r.ok => r.by = Res(s, op)))
    /\ r.rp = t.rd /\ r.wp = t.wr /\ r.ln = Len(t.bits)

RECURSIVE RunOk(_, _, _)
RunOk(c, k, s) ==
    IF k > Len(c.ops) THEN c.r.vec = ToBytes(s.bits)
    ELSE StepOk(s, c.ops[k], c.r.steps[k]) /\ RunOk(c, k + 1, TLCEval(Eff(s, c.ops[k])))

Ok(c) == c.r.ok /\ RunOk(c, 1, TLCEval(Fresh(c.start)))

VARIABLES i, bad
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN bad' = bad ELSE PrintT(<<"BAD", T[i].i>>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
