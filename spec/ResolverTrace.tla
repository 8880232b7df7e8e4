--------------------------- MODULE ResolverTrace ----------------------------
(* Steps through recorded histories of the real resolver, one event at a time. *)
(* A history is [i, kind, conf, w, lv, pair, r: [ok, evs]]; w is an index into *)
(* WORLDS, the hierarchies served.  RULES lists the rules that matter.         *)
EXTENDS Resolver, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
Worlds == ndJsonDeserialize(IOEnv.WORLDS)
Rules == {x \in {"query", "send", "sendttl", "sendtc", "closer", "attempts", "servers", "bound", "again", "chain", "just", "ttl", "tc",
                 "nx", "truth", "succ", "fail", "panic", "trace", "mute"} : IOEnv[x] = "1"}

\* in histories of failing servers it is known which ones can be asked
World(c) == IF c.w > 0 /\ (c.kind = "beh" \/ WorldOk(Worlds[c.w])) THEN <<Worlds[c.w]>> ELSE <<>>

\* two runs that differ in tracing only
Visible(evs) == SelectSeq(evs, LAMBDA e : e.k \in {"send", "end", "recv"})
Same(a, b) == /\ a.k = b.k /\ a.l = b.l /\ a.at = b.at
              /\ CASE a.k = "send" -> a.ip = b.ip /\ Tail(Tail(a.b)) = Tail(Tail(b.b))
                   [] a.k = "end" -> a.ok = b.ok /\ a.an = b.an /\ a.ns = b.ns /\ a.ar = b.ar /\ a.nx = b.nx
                   [] OTHER -> TRUE
PairOk(c) == LET a == Visible(c.r.evs)
                 b == Visible(c.pair)
             IN /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])
                /\ \A i \in 1..Len(b) : (b[i].k = "end" /\ b[i].ok # "panic") => (b[i].empty = c.mute)

VARIABLES i, k, n, S, bad, cnt, w    \* n: events of history i to be followed
vars == <<i, k, n, S, bad, cnt, w>>

\* A lookup that sends too much is told at once.  Histories longer than any that a lookup
\* within its limits makes are followed for a while only.
Sends(c, l) == Len(SelectSeq(c.r.evs, LAMBDA e : e.k = "send" /\ e.l = l))
TooMany(c) == \E l \in {c.r.evs[x].l : x \in {y \in 1..Len(c.r.evs) : c.r.evs[y].k \in {"start", "over"}}} : Sends(c, l) > Bound(c.conf)
Long(c) == Len(c.r.evs) > 600
Followed(c) == IF ~c.r.ok THEN 0 ELSE IF ~Long(c) THEN Len(c.r.evs) ELSE IF TooMany(c) THEN 100 ELSE 300
Enter(j) == IF j <= Len(T) THEN New(T[j].conf) ELSE New(0)
EnterN(j) == IF j <= Len(T) THEN TLCEval(Followed(T[j])) ELSE 0
EnterW(j) == IF j <= Len(T) THEN TLCEval(World(T[j])) ELSE <<>>
Init == i = 1 /\ k = 1 /\ n = EnterN(1) /\ bad = 0 /\ S = Enter(1) /\ w = EnterW(1) /\ cnt = [worlds |-> 0, events |-> 0, known |-> 0]

Event == /\ i <= Len(T) /\ k <= n
         /\ LET e == T[i].r.evs[k] IN
            S' = TLCEval(LET S1 == TLCEval(Step(S, e, w, T[i].lv)) IN
                         IF T[i].kind = "pair" /\ e.k = "end" /\ e.ok # "panic" /\ ~TraceOk(S1, e)
                         THEN [S1 EXCEPT !.bad = @ \cup {"trace"}] ELSE S1)
         /\ k' = k + 1 /\ UNCHANGED <<i, n, bad, cnt, w>>

Faults == (S.bad \cup (IF T[i].kind = "pair" /\ T[i].r.ok /\ ~PairOk(T[i]) THEN {"mute"} ELSE {})
               \cup (IF T[i].r.ok /\ Long(T[i]) /\ TooMany(T[i]) THEN {"bound"} ELSE {})) \cap Rules

Finish == /\ i <= Len(T) /\ k > n
          /\ IF T[i].r.ok /\ Faults = {} THEN bad' = bad
             ELSE /\ PrintT(<<"BAD", T[i].i>>)
                  /\ PrintT(<<"EXPECTED", T[i].i, IF T[i].r.ok THEN ToString(Faults) ELSE "the process did not survive">>)
                  /\ bad' = bad + 1
          /\ cnt' = [worlds |-> cnt.worlds + Len(w), events |-> cnt.events + n, known |-> cnt.known + Cardinality(S.facts)]
          /\ i' = i + 1 /\ k' = 1 /\ n' = EnterN(i + 1) /\ S' = Enter(i + 1) /\ w' = EnterW(i + 1)
          /\ (i = Len(T) => PrintT(<<"COUNT", ToJson(cnt')>>) /\ PrintT(<<"DONE", Len(T)>>))

Next == Event \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
