----------------------------- MODULE ZoneFileGen ----------------------------
(* Texts of zone files to load (N05): every sequence of at most `max` pieces   *)
(* of a frame's pool, put between fixed texts into one of the frame's files.   *)
EXTENDS ZoneFile, Json, IOUtils
F == ndJsonDeserialize(IOEnv.FRAMES)

VARIABLES fr, seq
vars == <<fr, seq>>
Init == fr \in 1..Len(F) /\ seq = <<>>
Next == Len(seq) < F[fr].max /\ \E k \in 1..Len(F[fr].pool) : seq' = Append(seq, k) /\ UNCHANGED fr
Spec == Init /\ [][Next]_vars

Gen == PrintT(<<"GEN", ToJson([fr |-> fr, seq |-> seq])>>)

-----------------------------------------------------------------------------
(* What the specification itself has to satisfy, checked over the frames whose *)
(* pieces are whole lines.                                                     *)
RECURSIVE Cat(_, _, _)
Cat(f, sq, p) == IF p > Len(sq) THEN <<>> ELSE f.pool[sq[p]] \o Cat(f, sq, p + 1)
LoadOf(sq) == LET f == F[fr] IN
    [f.L EXCEPT !.files = [i \in 1..Len(f.L.files) |-> IF i = f.hole THEN [f |-> f.L.files[i].f, x |-> f.pre \o Cat(f, sq, 1) \o f.post] ELSE f.L.files[i]]]
Starts(k, w) == LET x == F[fr].pool[k] IN Len(x) >= Len(w) /\ SubSeq(x, 1, Len(w)) = w
Del(sq, p) == SubSeq(sq, 1, p - 1) \o SubSeq(sq, p + 1, Len(sq))

\* an included file leaves the state of the including file alone
Transparent == F[fr].lines =>
    \A p \in 1..Len(seq) : Starts(seq[p], W_INCLUDE) =>
        LET a == TLCEval(Load(LoadOf(seq), FALSE))
            b == TLCEval(Load(LoadOf(Del(seq, p)), FALSE))
        IN a.v = "ok" => b.v = "ok" /\ Range(b.Z.recs) \subseteq Range(a.Z.recs)

\* whatever is loaded is consistent, inside the zone, and no TTL is below the minimum
Sound == LET a == TLCEval(Load(LoadOf(seq), FALSE)) IN
    a.v \in {"ok", "opt"} =>
        /\ Consistent(a.Z)
        /\ \A r \in Range(a.Z.recs) : InAuth(F[fr].L, r.n) /\ ~LessB(r.ttl, SubSeq(a.Z.recs[1].d.by[1], 17, 20))
=============================================================================
