----------------------------- MODULE PoolTrace ------------------------------
(* T01.  A recorded run of a real pool of c.n workers: events                  *)
(*  call/ret [j]  a job is handed over, by one of several threads,             *)
(*  start/end [j] the job itself, drop / dropped  the shutdown,                *)
(*  settled [run]  nothing has moved, while these jobs should block.           *)
(* A worker may have taken a job before its start is seen.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
New == [call |-> {}, ret |-> {}, before |-> <<>>, started |-> {}, ended |-> {}, dropped |-> FALSE, dropping |-> FALSE, ok |-> TRUE]
Bad(s) == [s EXCEPT !.ok = FALSE]
Set(q) == {q[k] : k \in 1..Len(q)}

Step(s, e, n) ==
    CASE e.k = "call" -> [s EXCEPT !.call = @ \cup {e.j}, !.before = @ @@ (e.j :> s.ret)]
      [] e.k = "ret" -> [s EXCEPT !.ret = @ \cup {e.j}]
      [] e.k = "start" ->
           \* every job handed over before it has been taken by a worker
           LET first == {x \in s.before[e.j] : x \notin s.ended}
               t == [s EXCEPT !.started = @ \cup {e.j}]
           IN IF e.j \in s.call /\ e.j \notin s.started /\ Cardinality(s.started \ s.ended) < n /\ Cardinality(first) < n /\ ~s.dropped
              THEN t ELSE Bad(t)
      [] e.k = "end" -> IF e.j \in s.started /\ e.j \notin s.ended THEN [s EXCEPT !.ended = @ \cup {e.j}] ELSE Bad(s)
      [] e.k = "drop" -> [s EXCEPT !.dropping = TRUE]
      [] e.k = "dropped" -> IF s.ended = s.call THEN [s EXCEPT !.dropped = TRUE] ELSE Bad(s)
      [] e.k = "settled" -> IF s.started \ s.ended = Set(e.run) THEN s ELSE Bad(s)
      [] e.k = "finish" -> IF s.ended = s.call /\ s.dropped = s.dropping THEN s ELSE Bad(s)

RECURSIVE Run(_, _, _, _)
Run(evs, k, n, s) == IF k > Len(evs) \/ ~s.ok THEN s ELSE Run(evs, k + 1, n, TLCEval(Step(s, TLCEval(evs[k]), n)))
\* c.m jobs handed over while all workers were busy: each is run once, before the
\* shutdown is over, and when one starts at most n - 1 earlier ones have not been seen to
Start(n, st, j) ==
    LET gap == IF j > st.hi THEN st.gap \cup ((st.hi + 1)..(j - 1)) ELSE st.gap \ {j}
    IN [hi |-> IF j > st.hi THEN j ELSE st.hi, gap |-> gap,
        ok |-> st.ok /\ (j > st.hi \/ j \in st.gap) /\ Cardinality(gap) < n]
FloodOk(c) ==
    LET e == FoldLeft(LAMBDA st, j : TLCEval(Start(c.n, st, j)), [hi |-> 0, gap |-> {}, ok |-> TRUE], c.r.order)
    IN c.r.busy = c.n /\ e.ok /\ e.hi = c.m /\ e.gap = {} /\ c.r.ended = c.m
Ok(c) == IF "m" \in DOMAIN c THEN c.r.ok /\ FloodOk(c) ELSE
         c.r.ok /\ Len(c.r.evs) > 0 /\ c.r.evs[Len(c.r.evs)].k = "finish" /\ Run(c.r.evs, 1, c.n, New).ok

VARIABLES i
Init == i = 1
Next == /\ i <= Len(T)
        /\ i' = i + 1
        /\ IF Ok(T[i]) THEN TRUE ELSE PrintT(<<"BAD", T[i].i>>)
Spec == Init /\ [][Next]_i
=============================================================================
