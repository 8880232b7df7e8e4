------------------------------ MODULE ProgGen -------------------------------
(* Configurations with which the two programs are run: a proper one with one    *)
(* value changed, or two if TwoChanges, and ones that cannot be served.         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS TwoChanges
Base == [prog |-> "", ua |-> "p", ta |-> "q", same |-> FALSE, uth |-> 2, tth |-> 2, uwt |-> 2, trt |-> 2, twt |-> 1,
         ttl |-> 1000, sttl |-> 2000, smin |-> 10, ns |-> 2, re |-> 1, cn |-> 3, rt |-> 1, wt |-> 2,
         level |-> "Info", silent |-> FALSE, verbose |-> FALSE, color |-> FALSE, broken |-> ""]
C(f, v) == [f |-> f, v |-> v]
\* values for a field, as records of changes
Changes(p) ==
    {<<C("ua", "q"), C("ta", "p")>>, <<C("ta", "p")>>, <<C("ta", "p"), C("same", TRUE)>>, <<C("same", TRUE)>>, <<C("ua", "6")>>, <<C("ta", "6")>>,
     <<C("uth", 1)>>, <<C("uth", 3)>>, <<C("tth", 1)>>, <<C("tth", 4)>>, <<C("uwt", 4)>>, <<C("trt", 1)>>, <<C("trt", 4)>>,
     <<C("level", "Error")>>, <<C("level", "Warn")>>, <<C("level", "Debug")>>, <<C("level", "Trace")>>}
    \cup IF p = "ns" THEN {<<C("twt", 4)>>, <<C("ttl", 0)>>, <<C("ttl", 2147483647)>>, <<C("sttl", 10)>>, <<C("sttl", 2147483647)>>, <<C("smin", 0), C("sttl", 0)>>, <<C("smin", 2000)>>}
       ELSE {<<C("twt", 3)>>, <<C("ns", 1)>>, <<C("ns", 4)>>, <<C("ns", 20), C("uth", 1)>>, <<C("re", 2)>>, <<C("re", 4)>>, <<C("cn", 1)>>, <<C("cn", 8)>>,
             <<C("rt", 3)>>, <<C("wt", 1)>>, <<C("silent", TRUE)>>, <<C("verbose", TRUE)>>, <<C("color", TRUE)>>, <<C("silent", TRUE), C("verbose", TRUE)>>,
             <<C("verbose", TRUE), C("color", TRUE)>>}
Broken(p) == {"args0", "args2", "gone", "cut", "threads", "timeout", "name", "takenu", "takent"}
             \cup IF p = "ns" THEN {"zonegone", "zonebad", "subgone", "subbad", "submin"} ELSE {}
RECURSIVE Apply(_, _)
Apply(s, cs) == IF cs = <<>> THEN s ELSE Apply([s EXCEPT ![cs[1].f] = cs[1].v], Tail(cs))
Broke(s, b) == IF b = "submin" THEN [s EXCEPT !.broken = b, !.sttl = 9] ELSE [s EXCEPT !.broken = b]
Fs(cs) == {cs[k].f : k \in 1..Len(cs)}
VARIABLES s
Init == \E p \in {"ns", "rs"} :
          LET b == [Base EXCEPT !.prog = p] IN
          \/ s = b
          \/ \E c \in Changes(p) : s = Apply(b, c)
          \/ \E x \in Broken(p) : s = Broke(b, x)
          \/ TwoChanges /\ \E c, d \in Changes(p) : Fs(c) \cap Fs(d) = {} /\ s = Apply(Apply(b, c), d)
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Gen == PrintT(<<"GEN", ToJson(s)>>)
=============================================================================
