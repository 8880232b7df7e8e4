----------------------------- MODULE Lifecycle ------------------------------
(* T02: two servers and the caller that waits for the first of them to end,    *)
(* tells the other to stop, wakes it up and waits for it for a limited time.   *)
(* Every server may fail to be set up or to be bound, at any moment, and end   *)
(* on its own.  A wake-up message reaches only a server whose socket is bound. *)
EXTENDS Integers, FiniteSets
CONSTANT LongJobs \* whether requests may outlast the time the caller waits
S == {"udp", "tcp"}
VARIABLES pc, woken, stop, msgs, main, wake, slow
vars == <<pc, woken, stop, msgs, main, wake, slow>>
\* pc: setup, bind, check, serve, drain (finishing requests), ended
Init == /\ pc = [s \in S |-> "setup"] /\ woken = [s \in S |-> FALSE] /\ stop = FALSE
        /\ msgs = {} /\ main = "first" /\ wake = {} /\ slow \in [S -> BOOLEAN] /\ (LongJobs \/ \A s \in S : ~slow[s])
Ended(s) == pc[s] = "ended"
End(s) == pc' = [pc EXCEPT ![s] = "ended"] /\ msgs' = msgs \cup {s}
Setup(s) == pc[s] = "setup" /\ (pc' = [pc EXCEPT ![s] = "bind"] /\ UNCHANGED msgs) /\ UNCHANGED <<woken, stop, main, wake, slow>>
Bind(s) == pc[s] = "bind" /\ pc' = [pc EXCEPT ![s] = "check"] /\ UNCHANGED <<msgs, woken, stop, main, wake, slow>>
Fail(s) == pc[s] \in {"setup", "bind", "serve"} /\ End(s) /\ UNCHANGED <<woken, stop, main, wake, slow>>
Check(s) == /\ pc[s] = "check"
            /\ IF stop THEN End(s) ELSE pc' = [pc EXCEPT ![s] = "serve"] /\ UNCHANGED msgs
            /\ UNCHANGED <<woken, stop, main, wake, slow>>
Serve(s) == /\ pc[s] = "serve" /\ woken[s]
            /\ woken' = [woken EXCEPT ![s] = FALSE]
            /\ pc' = [pc EXCEPT ![s] = IF stop THEN "drain" ELSE "serve"]
            /\ UNCHANGED <<stop, msgs, main, wake, slow>>
Drain(s) == pc[s] = "drain" /\ End(s) /\ UNCHANGED <<woken, stop, main, wake, slow>>
Request(s) == pc[s] \in {"check", "serve"} /\ ~woken[s] /\ woken' = [woken EXCEPT ![s] = TRUE] /\ UNCHANGED <<pc, stop, msgs, main, wake, slow>>

First == main = "first" /\ msgs # {} /\ main' = "wake" /\ stop' = TRUE /\ wake' = S /\ UNCHANGED <<pc, woken, msgs, slow>>
Wake(s) == /\ main = "wake" /\ s \in wake /\ wake' = wake \ {s}
           /\ woken' = [woken EXCEPT ![s] = @ \/ pc[s] \in {"check", "serve"}]
           /\ main' = IF wake = {s} THEN "second" ELSE "wake"
           /\ UNCHANGED <<pc, stop, msgs, slow>>
Second == main = "second" /\ (msgs = S \/ \E s \in S : slow[s]) /\ main' = "returned" /\ UNCHANGED <<pc, woken, stop, msgs, wake, slow>>
Next == First \/ Second \/ \E s \in S : Setup(s) \/ Bind(s) \/ Fail(s) \/ Check(s) \/ Serve(s) \/ Drain(s) \/ Request(s) \/ Wake(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(First) /\ WF_vars(Second)
        /\ \A s \in S : WF_vars(Setup(s)) /\ WF_vars(Bind(s)) /\ WF_vars(Check(s)) /\ WF_vars(Serve(s)) /\ WF_vars(Drain(s)) /\ WF_vars(Wake(s))

\* the properties
StopsOnlyAfterAnEnd == stop => \E s \in S : Ended(s)
ReturnsOnlyAfterAnEnd == main = "returned" => \E s \in S : Ended(s)
NoDrainWhileUp == ~stop => \A s \in S : pc[s] # "drain"
TogetherDown == (\E s \in S : Ended(s)) ~> (main = "returned" /\ \A s \in S : Ended(s))
=============================================================================
