----------------------------- MODULE ResDesign ------------------------------
(* A design model of the resolver: lookups that run at the same time and share *)
(* a cache, each a stack of nested lookups (for the addresses of name servers  *)
(* that came without), between honest servers and one whose every reply is     *)
(* arbitrary.  Checked exhaustively:                                           *)
(*  R03  nothing about names outside the malicious server's zone enters the    *)
(*       cache, an answer or the choice of a server but the truth;             *)
(*  R01  a lookup of a name outside that zone, with honest servers that reply, *)
(*       ends with the truth, whatever the cache holds and whenever entries    *)
(*       expire;                                                               *)
(*  R05  ... although one of that zone's two servers is dead;                  *)
(*  R02  whatever the malicious server replies, lookups are of bounded depth,  *)
(*       ask a bounded number of servers, and end;                             *)
(*  R08  ... for every interleaving of the lookups' accesses to the cache.     *)
(* The constants Glue, Closer and Match switch the corresponding rules of the  *)
(* resolver on; without any of them the model has a counterexample, which      *)
(* shows that the rules that the traces of the real resolver are judged by     *)
(* (ResolverTrace: just, send, closer, bound) are needed and suffice.          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Glue,        \* additionals outside the server's zone are dropped
          Closer,      \* a referral must lead closer to the searched name
          Match,       \* answers and aliases must be about the searched name
          Budget,      \* servers considered per lookup, nested ones included
          Depth,       \* how deep lookups are nested
          Redir,       \* how often a lookup starts again because of an alias
          MaxNs,       \* servers considered per step
          Lookups,     \* the searched names, one for each lookup
          Evil,        \* what the malicious server can say (a set of replies)
          Expiring     \* how many cache entries may vanish

\* names: sequences of labels, outermost last
R == <<>>
V == <<"v">>
W == <<"w", "v">>       \* the victim
H == <<"h">>
NH == <<"n", "h">>      \* name server of v and h
MH == <<"m", "h">>      \* another one of v, which is dead
E == <<"e">>
NE == <<"n", "e">>
X == <<"x", "e">>       \* a name of the malicious zone
Under(n, z) == Len(n) >= Len(z) /\ SubSeq(n, Len(n) - Len(z) + 1, Len(n)) = z
Strict(n, z) == Under(n, z) /\ n # z

\* addresses: the root's server, the one of h and v, the malicious one, dead ones; and none
A1 == <<"@", "1">>
A2 == <<"@", "2">>
A3 == <<"@", "3">>
A4 == <<"@", "4">>
A9 == <<"@", "9">>
NoA == <<>>
rec(n, t, d) == [n |-> n, t |-> t, d |-> d]
Truth == {rec(V, "NS", NH), rec(V, "NS", MH), rec(MH, "A", A4), rec(H, "NS", NH), rec(E, "NS", NE), rec(NH, "A", A2), rec(W, "A", A9)}
reply(rc, an, au, ad) == [rc |-> rc, an |-> an, au |-> au, ad |-> ad]

Honest(a, q, t) ==
    IF a = A1 THEN IF Under(q, V) THEN reply("ok", {}, {rec(V, "NS", NH), rec(V, "NS", MH)}, {})
                  ELSE IF Under(q, H) THEN reply("ok", {}, {rec(H, "NS", NH)}, {rec(NH, "A", A2)})
                  ELSE IF Under(q, E) THEN reply("ok", {}, {rec(E, "NS", NE)}, {rec(NE, "A", A3)})
                  ELSE reply("nx", {}, {}, {})
    ELSE IF a = A4 \/ (~Under(q, V) /\ ~Under(q, H)) THEN reply("fail", {}, {}, {})
    ELSE LET rs == {r \in Truth : r.n = q /\ r.t = t}
         IN IF rs # {} THEN reply("ok", rs, {}, {})
            ELSE IF q \in {V, W, H, NH, MH} THEN reply("nodata", {}, {}, {})
            ELSE reply("nx", {}, {}, {})

Replies(a, q, t) == IF a \in {A1, A2, A4} THEN {Honest(a, q, t)} ELSE Evil

\* what the resolver makes of a reply to the question (q, t) from a server of zone z
Servers(z, q, r, sub) ==
    LET ad == IF Glue THEN {x \in r.ad : Under(x.n, z)} ELSE r.ad
        ns == {x \in r.au : /\ x.t = "NS"
                            /\ Under(q, x.n)
                            /\ Closer => IF sub THEN Strict(x.n, z) ELSE Under(x.n, z)}
        with(x) == {y \in ad : y.t = "A" /\ y.n = x.d}
        all == {[z |-> x.n, h |-> x.d, a |-> IF with(x) = {} THEN NoA ELSE (CHOOSE y \in with(x) : TRUE).d] : x \in ns}
    IN IF sub THEN {s \in all : s.a # NoA \/ ~Under(s.h, s.z)} ELSE all

Read(z, q, t, r) ==
    IF r.rc = "nx" THEN [k |-> "nx", rs |-> {}, ns |-> {}]
    ELSE IF r.rc = "fail" THEN [k |-> "fail", rs |-> {}, ns |-> {}]
    ELSE LET rs == {x \in r.an : (Match => x.n = q) /\ x.t = t}
             cn == {x \in r.an : (Match => x.n = q) /\ x.t = "CN"}
         IN IF rs # {} THEN [k |-> "answer", rs |-> rs, ns |-> {}]
            ELSE IF cn # {} THEN LET c == CHOOSE x \in cn : TRUE
                                 IN [k |-> "alias", rs |-> {c}, ns |-> Servers(z, c.d, r, FALSE)]
            ELSE LET ns == Servers(z, q, r, TRUE)
                 IN IF ns # {} THEN [k |-> "referral", rs |-> {}, ns |-> ns]
                    ELSE IF r.rc = "nodata" /\ r.an = {} THEN [k |-> "nodata", rs |-> {}, ns |-> {}]
                    ELSE [k |-> "fail", rs |-> {}, ns |-> {}]

\* ----------------------------------------------------------------- state
VARIABLES cache,  \* a set of records; those of one name and type are one entry
          st,     \* of each lookup: the stack of nested lookups, innermost last
          left,   \* of each lookup: servers it may still consider
          res,    \* of each lookup: its outcome
          gone    \* how many cache entries have vanished
vars == <<cache, st, left, res, gone>>
P == DOMAIN Lookups

frame(q, prev, plain) ==
    [q |-> q, t |-> "A", prev |-> prev, plain |-> plain, cn |-> <<>>, redir |-> Redir, ph |-> "start", ns |-> <<>>]

Init == /\ cache = {}
        /\ st = [p \in P |-> <<frame(Lookups[p], <<>>, FALSE)>>]
        /\ left = [p \in P |-> Budget]
        /\ gone = 0
        /\ res = [p \in P |-> [k |-> "running", rs |-> {}, cn |-> <<>>]]

Entry(n, t) == {r \in cache : r.n = n /\ r.t = t}
With(rs) == {r \in cache : ~\E x \in rs : x.n = r.n /\ x.t = r.t} \cup rs
Running(p) == res[p].k = "running"
Top(p) == st[p][Len(st[p])]
Set(p, f) == st' = [st EXCEPT ![p][Len(st[p])] = f]

\* the end of the innermost lookup
Return(p, k, rs, cn) ==
    IF Len(st[p]) = 1 THEN /\ res' = [res EXCEPT ![p] = [k |-> k, rs |-> rs, cn |-> cn]]
                           /\ st' = [st EXCEPT ![p] = <<>>]
    ELSE /\ LET n == Len(st[p])
                f == st[p][n - 1]
                as == {r \in rs : r.t = "A" /\ r.n = Top(p).q}
                g == IF k = "answer" /\ as # {}
                     THEN [f EXCEPT !.ph = "send", !.ns = <<[Head(f.ns) EXCEPT !.a = (CHOOSE r \in as : TRUE).d]>> \o Tail(f.ns)]
                     ELSE [f EXCEPT !.ph = "ask", !.ns = Tail(f.ns)]
            IN st' = [st EXCEPT ![p] = Append(SubSeq(st[p], 1, n - 2), g)]
         /\ UNCHANGED res

Alias(p, c, ns) ==
    LET f == Top(p)
        seen == {f.cn[i].n : i \in 1..Len(f.cn)} \cup {c.n}
    IN IF f.plain \/ c.d \in seen THEN Return(p, "fail", {}, <<>>)
       ELSE /\ Set(p, [f EXCEPT !.q = c.d, !.cn = Append(@, c), !.ph = "start", !.redir = @ - 1, !.ns = ns])
            /\ UNCHANGED res

Start(p) == /\ Top(p).ph = "start"
            /\ IF Top(p).redir = 0 THEN Return(p, "fail", {}, <<>>)
               ELSE IF Entry(Top(p).q, Top(p).t) # {} THEN Return(p, "answer", Entry(Top(p).q, Top(p).t), Top(p).cn)
               ELSE /\ Set(p, [Top(p) EXCEPT !.ph = "alias"])
                    /\ UNCHANGED res
            /\ UNCHANGED <<cache, left>>

Cached(p) == /\ Top(p).ph = "alias"
             /\ IF Entry(Top(p).q, "CN") # {} THEN Alias(p, CHOOSE r \in Entry(Top(p).q, "CN") : TRUE, <<>>)
                ELSE /\ Set(p, [Top(p) EXCEPT !.ph = IF Top(p).ns = <<>> THEN "find" ELSE "sort"])
                     /\ UNCHANGED res
             /\ UNCHANGED <<cache, left>>

\* the deepest zone with servers in the cache, unless these servers are being looked up
Find(p) == /\ Top(p).ph = "find"
           /\ LET f == Top(p)
                  zs == {r.n : r \in {x \in cache : x.t = "NS" /\ Under(f.q, x.n)}} \ {f.prev[i] : i \in 1..Len(f.prev)}
                  z == CHOOSE y \in zs : \A o \in zs : Len(y) >= Len(o)
                  host(r) == Entry(r.d, "A")
                  ns == IF zs = {} THEN {[z |-> R, h |-> <<"root">>, a |-> A1]}
                        ELSE {[z |-> z, h |-> r.d, a |-> IF host(r) = {} THEN NoA ELSE (CHOOSE x \in host(r) : TRUE).d] : r \in Entry(z, "NS")}
              IN \E q \in [1..Cardinality(ns) -> ns] :
                   /\ {q[i] : i \in 1..Cardinality(ns)} = ns
                   /\ Set(p, [f EXCEPT !.ph = "sort", !.ns = q])
           /\ UNCHANGED <<cache, left, res>>

Sort(p) == /\ Top(p).ph = "sort"
           /\ LET f == Top(p)
                  s == SelectSeq(f.ns, LAMBDA x : x.a # NoA) \o SelectSeq(f.ns, LAMBDA x : x.a = NoA)
              IN Set(p, [f EXCEPT !.ph = "ask", !.ns = SubSeq(s, 1, IF Len(s) < MaxNs THEN Len(s) ELSE MaxNs)])
           /\ UNCHANGED <<cache, left, res>>

\* the next server; a nested lookup first if it has no address
Ask(p) == /\ Top(p).ph = "ask"
          /\ LET f == Top(p)
                 s == Head(f.ns)
             IN IF f.ns = <<>> \/ left[p] = 0 THEN Return(p, "fail", {}, <<>>) /\ UNCHANGED left
                ELSE /\ left' = [left EXCEPT ![p] = @ - 1]
                     /\ UNCHANGED res
                     /\ IF s.a # NoA THEN Set(p, [f EXCEPT !.ph = "send"])
                        ELSE IF Len(f.prev) >= Depth \/ \E i \in 1..Len(f.prev) : f.prev[i] = s.z
                             THEN Set(p, [f EXCEPT !.ns = Tail(f.ns)])
                        ELSE st' = [st EXCEPT ![p] = Append([@ EXCEPT ![Len(@)].ph = "wait"], frame(s.h, Append(f.prev, s.z), TRUE))]
          /\ UNCHANGED cache

\* a question goes out, some reply comes back
Send(p) == /\ Top(p).ph = "send"
           /\ LET f == Top(p)
                  s == Head(f.ns)
              IN \E r \in Replies(s.a, f.q, f.t) :
                   LET m == Read(s.z, f.q, f.t, r)
                   IN CASE m.k = "answer" -> cache' = With(m.rs) /\ Return(p, "answer", m.rs, f.cn)
                        [] m.k \in {"nx", "nodata"} -> UNCHANGED cache /\ Return(p, m.k, {}, f.cn)
                        [] m.k = "fail" -> /\ UNCHANGED <<cache, res>>
                                           /\ Set(p, [f EXCEPT !.ph = "ask", !.ns = Tail(f.ns)])
                        [] m.k = "alias" ->
                             LET c == CHOOSE x \in m.rs : TRUE
                             IN \E q \in [1..Cardinality(m.ns) -> m.ns] :
                                  /\ {q[i] : i \in 1..Cardinality(m.ns)} = m.ns
                                  /\ cache' = IF f.plain \/ c.d = c.n \/ \E i \in 1..Len(f.cn) : f.cn[i].n = c.d THEN cache ELSE With(m.rs)
                                  /\ Alias(p, c, q)
                        [] m.k = "referral" ->
                             \E q \in [1..Cardinality(m.ns) -> m.ns] :
                                  /\ {q[i] : i \in 1..Cardinality(m.ns)} = m.ns
                                  /\ cache' = With({rec(x.z, "NS", x.h) : x \in m.ns} \cup {rec(x.h, "A", x.a) : x \in {y \in m.ns : y.a # NoA}})
                                  /\ Set(p, [f EXCEPT !.ph = "sort", !.ns = q])
                                  /\ UNCHANGED res
           /\ UNCHANGED left

Step(p) == Running(p) /\ UNCHANGED gone /\ (Start(p) \/ Cached(p) \/ Find(p) \/ Sort(p) \/ Ask(p) \/ Send(p))
Expire == /\ gone < Expiring
          /\ gone' = gone + 1
          /\ \E r \in cache : cache' = cache \ Entry(r.n, r.t)
          /\ UNCHANGED <<st, left, res>>
Next == Expire \/ \E p \in P : Step(p)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in P : WF_vars(Step(p))

\* ------------------------------------------------------------ properties
Outside(n) == ~Under(n, E)
\* R03
OnlyTruthCached == \A r \in cache : Outside(r.n) => r \in Truth
RightServerAsked == \A p \in P : Running(p) /\ Top(p).ph = "send" /\ Outside(Top(p).q) => Head(Top(p).ns).a \in {A1, A2, A4}
OnlyTruthAnswered == \A p \in P : \A r \in res[p].rs : Outside(r.n) => r \in Truth
\* R01
Victims == \A p \in P : Lookups[p] = W /\ ~Running(p) => res[p].k = "answer" /\ res[p].rs = {rec(W, "A", A9)}
\* R02
Bounded == \A p \in P : Len(st[p]) <= Depth + 1
Ends == \A p \in P : <>(~Running(p))
\* R06: the aliases and the answer are one chain
Chained == \A p \in P : res[p].k = "answer" =>
             LET c == res[p].cn
             IN /\ \A i \in 1..Len(c) : c[i].n = (IF i = 1 THEN Lookups[p] ELSE c[i - 1].d)
                /\ \A r \in res[p].rs : r.n = (IF c = <<>> THEN Lookups[p] ELSE c[Len(c)].d)
\* R03: nobody is asked for a name outside the zone it was found for
InZone == \A p \in P : Running(p) /\ Top(p).ph = "send" => Under(Top(p).q, Head(Top(p).ns).z)
=============================================================================
