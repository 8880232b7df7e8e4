------------------------------ MODULE PoolGen -------------------------------
(* Scripts for a real pool: hand over jobs that block until released (and then *)
(* succeed or fail) or that end (or fail) at once; release a running job; shut *)
(* the pool down; let time pass.  After every step the set of running jobs is determined.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Sizes, Depth
VARIABLES n, script, q, run, cnt, closed, idle
vars == <<n, script, q, run, cnt, closed, idle>>
Kinds == {"gate", "gatep", "quick", "panic"}
Blocks(k) == k \in {"gate", "gatep"}

\* start queued jobs while workers are free; jobs that do not block end at once
RECURSIVE Fill(_, _)
Fill(qq, r) == IF qq = <<>> \/ Cardinality(r) = n THEN <<qq, r>>
               ELSE Fill(Tail(qq), IF Blocks(Head(qq).kind) THEN r \cup {Head(qq).j} ELSE r)

Init == n \in Sizes /\ script = <<>> /\ q = <<>> /\ run = {} /\ cnt = 0 /\ closed = FALSE /\ idle = FALSE
Do(s, qq, r) == LET f == TLCEval(Fill(qq, r)) IN q' = f[1] /\ run' = f[2] /\ script' = Append(script, [s EXCEPT !.run = SetToSeq(f[2])])
Sub == ~closed /\ \E k \in Kinds : Do([s |-> "sub", j |-> cnt + 1, kind |-> k, run |-> <<>>], Append(q, [j |-> cnt + 1, kind |-> k]), run) /\ cnt' = cnt + 1 /\ UNCHANGED <<n, closed, idle>>
Rel == \E j \in run : Do([s |-> "rel", j |-> j, kind |-> "", run |-> <<>>], q, run \ {j}) /\ UNCHANGED <<n, cnt, closed, idle>>
Close == ~closed /\ Do([s |-> "drop", j |-> 0, kind |-> "", run |-> <<>>], q, run) /\ closed' = TRUE /\ UNCHANGED <<n, cnt, idle>>
\* nothing happens for a long time, while a worker is free (once)
Idle == ~closed /\ ~idle /\ Cardinality(run) < n /\ Len(script) < Depth - 1 /\ Do([s |-> "idle", j |-> 0, kind |-> "", run |-> <<>>], q, run) /\ idle' = TRUE /\ UNCHANGED <<n, cnt, closed>>
\* released in order at the end
Next == Len(script) < Depth /\ (Sub \/ Rel \/ Close \/ Idle)
Spec == Init /\ [][Next]_vars
Busy == Cardinality(run) <= n /\ (q # <<>> => Cardinality(run) = n)
Gen == (Len(script) = Depth) => PrintT(<<"GEN", ToJson([n |-> n, steps |-> script])>>)
=============================================================================
