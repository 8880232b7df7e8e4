-------------------------------- MODULE Pool --------------------------------
(* T01: a pool of N workers with one queue.  Design model: jobs 1..J, some of  *)
(* which fail, are handed over in order; shutting down queues one stop message *)
(* per worker behind the jobs and waits for all workers.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, J
Stop == 0
VARIABLES q, w, nxt, ran, started, phase, fails
vars == <<q, w, nxt, ran, started, phase, fails>>
Workers == 1..N
Init == q = <<>> /\ w = [x \in Workers |-> -1] /\ nxt = 1 /\ ran = {} /\ started = <<>> /\ phase = "open" /\ fails \in SUBSET (1..J)
Submit == phase = "open" /\ nxt <= J /\ q' = Append(q, nxt) /\ nxt' = nxt + 1 /\ UNCHANGED <<w, ran, started, phase, fails>>
Drop == phase = "open" /\ phase' = "closing" /\ q' = q \o [x \in Workers |-> Stop] /\ UNCHANGED <<w, nxt, ran, started, fails>>
\* w[x]: -1 idle, -2 gone, otherwise the job being run
Take(x) == /\ w[x] = -1 /\ q # <<>> /\ q' = Tail(q)
           /\ IF Head(q) = Stop THEN w' = [w EXCEPT ![x] = -2] /\ UNCHANGED started
              ELSE w' = [w EXCEPT ![x] = Head(q)] /\ started' = Append(started, Head(q))
           /\ UNCHANGED <<nxt, ran, phase, fails>>
\* a failing job ends like any other
End(x) == w[x] > 0 /\ ran' = ran \cup {w[x]} /\ w' = [w EXCEPT ![x] = -1] /\ UNCHANGED <<q, nxt, started, phase, fails>>
Joined == phase = "closing" /\ (\A x \in Workers : w[x] = -2) /\ phase' = "closed" /\ UNCHANGED <<q, w, nxt, ran, started, fails>>
Next == Submit \/ Drop \/ Joined \/ \E x \in Workers : Take(x) \/ End(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Joined) /\ \A x \in Workers : WF_vars(Take(x)) /\ WF_vars(End(x))

ExactlyOnce == \A a, b \in 1..Len(started) : a # b => started[a] # started[b]
InOrder == \A a \in 1..Len(started) : started[a] = a
NeverShrinks == phase = "open" => \A x \in Workers : w[x] # -2
AllRun == phase = "closed" => ran = 1..(nxt - 1)
EveryJobRuns == \A j \in 1..J : (nxt > j) ~> (j \in ran)
ShutdownEnds == (phase = "closing") ~> (phase = "closed")
=============================================================================
