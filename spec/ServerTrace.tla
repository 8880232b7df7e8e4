---------------------------- MODULE ServerTrace -----------------------------
(* Judges the replies of the real servers.  A case is [z, b, r: [ok, rs]]: the *)
(* bytes b sent to a name server of zone z (an index into ZONES; 0 for the     *)
(* resolver) and the replies rs that came back.  PROP selects the property.    *)
EXTENDS Server, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
Zones == ndJsonDeserialize(IOEnv.ZONES)
Prop == IOEnv.PROP

Zone(c) == Zones[c.z]
Inside(c, q) == InZone(q.n, Zone(c).zone)
InSub(c, q) == Inside(c, q) /\ SubsOf(Zone(c), q.n) # {}

Proper(c, q) == IF c.z = 0 THEN {0, 2, 3} ELSE IF Inside(c, q) THEN {0, 3} ELSE {5}

Ok(c) == /\ c.r.ok
         /\ CASE Prop = "N01" -> RepliesOk(c.b, c.r.rs, IF c.z = 0 THEN 1 ELSE 0)
              [] Prop = "N02" -> CodeOk(c.b, c.r.rs, LAMBDA q : Proper(c, q))
              [] Prop = "N03" -> AnswersOk(Zone(c), c.b, c.r.rs, LAMBDA q : Inside(c, q) /\ ~InSub(c, q))
              [] Prop = "N04" -> AnswersOk(Zone(c), c.b, c.r.rs, LAMBDA q : InSub(c, q))
              [] Prop = "LOADED" -> TRUE
              [] Prop = "ALL" -> AnswersOk(Zone(c), c.b, c.r.rs, LAMBDA q : TRUE)

Expl(c) == [class |-> IF HeaderReadable(c.b) THEN ToString(Classify(c.b)) ELSE "no reply",
            want |-> IF c.z > 0 /\ HeaderReadable(c.b) /\ Classify(c.b).normal
                     THEN ToString(Answer(Zones[c.z], Decode(c.b).m.q[1].n, Decode(c.b).m.q[1].t)) ELSE "-",
            got |-> IF c.r.ok /\ c.r.rs # <<>> THEN ToString(Decode(c.r.rs[1])) ELSE "-"]

VARIABLES i, bad
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN bad' = bad
           ELSE /\ PrintT(<<"BAD", T[i].i>>)
                /\ (bad < 3 => PrintT(<<"EXPECTED", T[i].i, ToJson(Expl(T[i]))>>))
                /\ bad' = bad + 1
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
