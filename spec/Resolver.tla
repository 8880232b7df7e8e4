------------------------------ MODULE Resolver ------------------------------
(* What an iterative resolver may do, as a state machine driven by the events  *)
(* at its boundary:                                                            *)
(*   start  a lookup l begins: question (n, t)                                 *)
(*   send   a datagram to port 53 of an address                                *)
(*   recv   what came back for the query sent last (got = FALSE: nothing)      *)
(*   end    the outcome of the lookup                                          *)
(*   drop   the user removed an entry from the cache                           *)
(* The state keeps every record the resolver was entitled to learn ("facts"),  *)
(* with the moment at which it expires, and per lookup what was asked and      *)
(* which reply is being followed.  A step that the rules do not allow adds the *)
(* name of the rule to bad; the rules are                                      *)
(*   query     a query is one well-formed question                             *)
(*   send      only a server of a zone that contains the name is asked, one    *)
(*             known by an unbroken chain of referrals from the root           *)
(*   sendttl   ... by records that have not expired                            *)
(*   sendtc    ... nor come from an earlier truncated reply                    *)
(*   closer    following a referral leads to a zone closer to the name         *)
(*   attempts  no server is sent a question more often than configured         *)
(*   servers   no step asks more servers than configured                       *)
(*   bound     a lookup sends a bounded number of queries                      *)
(*   again     what is remembered is not asked again                           *)
(*   chain     aliases in order, then records of the final name                *)
(*   just      every record returned was learned from a server entitled to it  *)
(*   ttl       ... is live, with at most the lifetime that is left             *)
(*   tc        ... and not from a truncated reply to an earlier lookup         *)
(*   nx        "no such name" / "no such records" only if a server said so     *)
(*   truth     the outcome is what the hierarchy of zones holds                *)
(*   succ      a lookup that has to succeed does                               *)
(*   fail      a lookup that cannot succeed does not                           *)
(*   panic     no crash                                                        *)
(*   trace     the trace tells what happened                                   *)
(*   mute      tracing changes nothing                                         *)
EXTENDS Wire, SequencesExt

RootIps == {<<198, 41, 0, 4>>, <<199, 9, 14, 201>>, <<192, 33, 4, 12>>, <<199, 7, 91, 13>>, <<192, 203, 230, 10>>,
            <<192, 5, 5, 241>>, <<192, 112, 36, 4>>, <<198, 97, 190, 53>>, <<192, 36, 148, 17>>, <<192, 58, 128, 30>>,
            <<193, 0, 14, 129>>, <<199, 7, 83, 42>>, <<202, 12, 27, 33>>}
RootName(ip, s) == ip \in RootIps /\ Len(s) = 3 /\ s[2] = <<114, 111, 111, 116, 45, 115, 101, 114, 118, 101, 114, 115>>

Forever == 2147483647
\* seconds, -1 for lifetimes beyond the range used here
Secs(b) == IF b[1] > 0 \/ b[2] >= 15 THEN -1 ELSE b[2] * 65536 + b[3] * 256 + b[4]
RECURSIVE BytesLe(_, _)
BytesLe(a, b) == IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE BytesLe(Tail(a), Tail(b))
Zones(n) == {SubSeq(n, i, Len(n)) : i \in 1..(Len(n) + 1)}

-----------------------------------------------------------------------------
(* What a hierarchy of zones holds.                                            *)
Deepest(W, n) == LET H == {j \in 1..Len(W.zones) : InZone(n, W.zones[j].zone)} IN
                 W.zones[CHOOSE j \in H : \A k \in H : Len(W.zones[k].zone) <= Len(W.zones[j].zone)]
At2(W, n, t) == LET z == Deepest(W, n) IN {LowR(z.recs[j]) : j \in {k \in 1..Len(z.recs) : z.recs[k].t = t /\ SameName(z.recs[k].n, n)}}
Exists(W, n) == \/ \E j \in 1..Len(W.zones) : InZone(W.zones[j].zone, n)
                \/ LET z == Deepest(W, n) IN \E j \in 1..Len(z.recs) : InZone(z.recs[j].n, n)

RECURSIVE Follow(_, _, _, _)
Follow(W, n, t, chain) ==
    LET hit == TLCEval({[n |-> r.n, t |-> r.t, d |-> r.d] : r \in At2(W, n, t)})
        al  == IF t = 5 THEN {} ELSE At2(W, n, 5)
    IN IF hit # {} THEN [k |-> "ok", chain |-> chain, recs |-> hit]
       ELSE IF al # {} THEN
            LET r == CHOOSE x \in al : TRUE
                c == TLCEval(Append(chain, [n |-> r.n, t |-> 5, d |-> r.d]))
            IN IF \E i \in 1..Len(chain) : chain[i].n = r.n THEN [k |-> "loop", chain |-> chain, recs |-> {}]
               ELSE Follow(W, TLCEval(r.d.nm[1]), t, c)
       ELSE [k |-> IF Exists(W, n) THEN "nodata" ELSE "nx", chain |-> chain, recs |-> {}]
Resolve(W, n, t) == Follow(W, n, t, <<>>)

(* A hierarchy is consistent if every record is in the zone its name belongs   *)
(* to, aliases stand alone, and every zone has servers whose addresses can be  *)
(* found: their names lie in the zone itself (the parent knows the address) or *)
(* in zones that can be reached without it, not too many steps away.           *)
NsOf(W, z) == {r \in At2(W, z.zone, 2) : TRUE}
\* the zones that can be found from those in known: through their own servers, or all
ParentIn(W, known, z) ==
    \E p \in known : /\ Len(W.zones[p].zone) < Len(z.zone) /\ InZone(z.zone, W.zones[p].zone)
                     /\ \A q \in 1..Len(W.zones) :
                           (InZone(z.zone, W.zones[q].zone) /\ Len(W.zones[q].zone) < Len(z.zone))
                              => Len(W.zones[q].zone) <= Len(W.zones[p].zone)
Found1(W, known, own) ==
    {j \in 1..Len(W.zones) :
        LET z == W.zones[j] IN
        \/ z.zone = <<>>
        \/ /\ ParentIn(W, known, z)
           /\ NsOf(W, z) # {}
           /\ \A r \in NsOf(W, z) :
                 /\ At2(W, r.d.nm[1], 1) # {}
                 /\ \/ InZone(r.d.nm[1], z.zone)
                    \/ ~own /\ \E p \in known : Deepest(W, r.d.nm[1]) = W.zones[p]}
RECURSIVE Closed(_, _)
Closed(W, known) == LET new == known \cup Found1(W, known, TRUE)
                    IN IF new = known THEN known ELSE Closed(W, TLCEval(new))
RECURSIVE Reach(_, _, _)
Reach(W, known, n) ==
    IF n = 0 THEN known
    ELSE LET new == Closed(W, TLCEval(known \cup Found1(W, known, FALSE)))
         IN IF new = known THEN known ELSE Reach(W, TLCEval(new), TLCEval(n - 1))
WorldOk(W) == Reach(W, {}, 6) = 1..Len(W.zones)

-----------------------------------------------------------------------------
NoPend == [id |-> -1]
New(c) == [conf |-> c, facts |-> {}, lk |-> <<>>, bad |-> {}, m |-> 0, kept |-> {}, open |-> {}]

Lk(S, l) == S.lk[l]
NewLk(e) == [n |-> Lower(e.n), t |-> e.t, at |-> e.at, truth |-> e.truth, sent |-> <<>>, pend |-> NoPend, refs |-> {}, nxs |-> {},
             nods |-> {}, tc |-> FALSE, done |-> FALSE, grp |-> <<>>, end |-> -1, dom |-> {}]

Usable(f, l, st) == f.l = l \/ (~f.tc /\ f.exp > st)
Known(S, l) == {f \in S.facts : Usable(f, l, S.lk[l].at)}

\* the zones containing q of which ip is known, by the facts F, to be a server
Trust(F, ip, q) == {z \in Zones(q) : \/ z = <<>> /\ ip \in RootIps
                                     \/ \E f \in F : /\ f.t = 2 /\ f.n = z
                                                     /\ \E g \in F : g.t = 1 /\ g.n = f.d.nm[1] /\ g.d.by[1] = ip}
AllTrust(F, ip) == (IF ip \in RootIps THEN {<<>>} ELSE {})
                   \cup {f.n : f \in {x \in F : x.t = 2 /\ \E g \in F : g.t = 1 /\ g.n = x.d.nm[1] /\ g.d.by[1] = ip}}
Shortest(Z) == CHOOSE k \in {Len(z) : z \in Z} : \A z \in Z : Len(z) >= k

Start(S, e) == [S EXCEPT !.lk = (e.l :> NewLk(e)) @@ S.lk]

Bound(c) == 4 * (64 + 16 * c.ns * c.cname) * c.retries

Send(S, e) ==
    LET L == Lk(S, e.l)
        r == Decode(e.b)
        fine == r.v = "ok" /\ r.m.h.qr = 0 /\ r.m.h.op = 0 /\ r.m.h.tc = 0 /\ r.m.h.rc = 0 /\ Len(r.m.q) = 1 /\ r.m.h.qc = 1
                /\ r.m.h.ac = 0 /\ r.m.h.nc = 0 /\ r.m.h.rcnt = 0
    IN IF ~fine THEN [S EXCEPT !.bad = @ \cup {"query"}, !.lk[e.l].pend = NoPend]
       ELSE
       LET q == r.m.q[1].n
           t == r.m.q[1].t
           F == TLCEval(Known(S, e.l))
           Z == TLCEval(Trust(F, e.ip, q))
           ref == {x \in L.refs : x.q = q /\ x.t = t}
           b1 == IF Z # {} THEN {}
                 ELSE IF Trust({f \in S.facts : f.l = e.l \/ ~f.tc}, e.ip, q) # {} THEN {"sendttl"}
                 ELSE IF Trust(S.facts, e.ip, q) # {} THEN {"sendtc"} ELSE {"send"}
           b2 == IF \E x \in ref : /\ Trust({f \in F : f.m # x.m}, e.ip, q) = {}
                                   /\ \A z \in Z : Len(z) <= x.wide
                 THEN {"closer"} ELSE {}
           sent == TLCEval(Append(L.sent, [ip |-> e.ip, q |-> q, t |-> t, z |-> Z]))
           same == {i \in 1..Len(sent) : sent[i].q = q /\ sent[i].t = t}
           b3 == IF S.conf.strict /\ Cardinality({i \in same : sent[i].ip = e.ip}) > S.conf.retries THEN {"attempts"} ELSE {}
           b4 == IF S.conf.strict /\ \E z \in Z : Cardinality({sent[i].ip : i \in {k \in same : z \in sent[k].z}}) > S.conf.ns
                 THEN {"servers"} ELSE {}
           b5 == IF Len(sent) > Bound(S.conf) THEN {"bound"} ELSE {}
           b6 == IF \E x \in S.kept : x.q = q /\ x.dt = t /\ x.end < L.at
                                      /\ \A f \in S.facts : (f.n = q /\ f.t = x.t /\ ~f.tc) => f.exp0 > e.at + 1000
                 THEN {"again"} ELSE {}
           g == L.grp
           more == g # <<>> /\ Last(g).ip = e.ip /\ Last(g).q = q /\ Last(g).t = t /\ Last(g).res = "none" /\ Last(g).cnt < S.conf.retries
           mine == {f \in F : f.l = e.l}
           own == [ns |-> Trust(mine, e.ip, q) = {},
                   \* every way to know this server leans on something learned by an earlier lookup
                   names |-> {f.n : f \in {x \in F : x.t = 1 /\ x.d.by[1] = e.ip}}]
       IN [S EXCEPT !.bad = @ \cup b1 \cup b2 \cup b3 \cup b4 \cup b5 \cup b6,
                    !.lk[e.l].sent = sent,
                    !.lk[e.l].grp = IF more THEN [g EXCEPT ![Len(g)].cnt = @ + 1]
                                    ELSE Append(g, [ip |-> e.ip, q |-> q, t |-> t, res |-> "none", cnt |-> 1, own |-> own]),
                    !.lk[e.l].pend = [id |-> r.m.h.id, q |-> q, t |-> t, ip |-> e.ip,
                                      wide |-> IF Z = {} THEN 0 ELSE Shortest(Z), zs |-> TLCEval(AllTrust(F, e.ip))]]

Recv(S, e) ==
    LET L == Lk(S, e.l)
        p == L.pend
        r == IF e.got THEN Decode(e.b) ELSE Bad
    IN IF p.id = -1 \/ r.v = "bad" THEN S
       ELSE IF r.m.h.id # p.id THEN S
       ELSE
       LET m == r.m
           tc == m.h.tc = 1
           mn == S.m + 1
           Learn(x, dir) == [n |-> x.n, t |-> x.t, d |-> x.d, ttl |-> x.ttl,
                             exp |-> IF Secs(x.ttl) < 0 THEN Forever ELSE e.at + 1000 * Secs(x.ttl),
                             exp0 |-> IF Secs(x.ttl) < 0 THEN Forever ELSE e.at + 1000 * Secs(x.ttl),
                             l |-> e.l, tc |-> tc, m |-> mn, dt |-> IF dir THEN p.t ELSE 0]
           In(x) == \E z \in p.zs : InZone(x.n, z)
           IsDir(x) == x.n = p.q /\ x.t \in {p.t, 5}
           an == {Learn(m.an[i], IsDir(m.an[i])) : i \in {k \in 1..Len(m.an) : In(m.an[k])}}
           ns == {Learn(m.ns[i], FALSE) : i \in {k \in 1..Len(m.ns) : In(m.ns[k])}}
           ar == {Learn(m.ar[i], FALSE) : i \in {k \in 1..Len(m.ar) : In(m.ar[k])}}
           got == CASE m.h.rc = 0 -> an \cup ns \cup ar
                    [] m.h.rc = 3 -> ns
                    [] OTHER -> {}
           direct == \E i \in 1..Len(m.an) : m.an[i].n = p.q /\ m.an[i].t = p.t
           alias == \E i \in 1..Len(m.an) : m.an[i].n = p.q /\ m.an[i].t = 5
           refer == m.h.rc = 0 /\ ~direct /\ ~alias /\ \E i \in 1..Len(m.ns) : m.ns[i].t = 2
           res == IF m.h.rc = 0 /\ (direct \/ alias) THEN "yes" ELSE "maybe"
       IN [S EXCEPT !.facts = @ \cup got,
                    !.m = mn,
                    !.open = @ \cup {<<e.l, mn>>},
                    !.lk[e.l].tc = @ \/ tc,
                    !.lk[e.l].refs = {x \in @ : ~(x.q = p.q /\ x.t = p.t)}
                                     \cup (IF refer THEN {[q |-> p.q, t |-> p.t, m |-> mn, wide |-> p.wide]} ELSE {}),
                    !.lk[e.l].nxs = IF m.h.rc = 3 /\ m.h.aa = 1 THEN @ \cup {<<p.q, p.t>>} ELSE @,
                    !.lk[e.l].nods = IF m.h.rc = 0 /\ m.h.aa = 1 /\ ~direct THEN @ \cup {<<p.q, p.t>>} ELSE @,
                    !.lk[e.l].grp[Len(L.grp)].res = res]

(* ---- the outcome *)
RECURSIVE Lead(_, _, _, _)
Lead(an, n, t, i) == IF i > Len(an) \/ t = 5 THEN [k |-> i - 1, n |-> n]
                     ELSE IF an[i].t = 5 /\ an[i].n = n THEN Lead(an, TLCEval(an[i].d.nm[1]), t, TLCEval(i + 1))
                     ELSE [k |-> i - 1, n |-> n]

\* why a returned record is not all right: a set of rules
Fault(S, l, r, lowered) ==
    LET st == S.lk[l].at
        C == {f \in S.facts : f.n = r.n /\ f.t = r.t /\ f.d = r.d}
        own == {f \in C : f.l = l}
        live == {f \in C : f.l # l /\ ~f.tc /\ f.exp > st}
        s == Secs(r.ttl)
        Fits(f) == IF f.l = l THEN BytesLe(r.ttl, f.ttl)
                   ELSE IF f.exp = Forever THEN BytesLe(r.ttl, f.ttl)
                   ELSE s >= 0 /\ s * 1000 <= f.exp - st
    IN IF own = {} /\ live = {} THEN
            IF \E f \in C : ~f.tc THEN {"ttl"} ELSE IF C # {} THEN {"tc"} ELSE {"just"}
       ELSE IF \E f \in own \cup live : Fits(f) THEN {} ELSE {"ttl"}

Plain(rs) == [i \in 1..Len(rs) |-> [n |-> rs[i].n, t |-> rs[i].t, d |-> rs[i].d]]
MinOf(a, b) == IF a < b THEN a ELSE b

\* levels of servers with given behaviours: has the lookup to succeed, can it?
GoodAct(c, a) == a.k \in {"good", "far"} \/ (a.f < c.retries /\ a.k \in {"silent", "late", "unreach", "refused", "garbage", "short", "cut", "wrongid"})
BadOnes(c, lv) == {i \in 1..Len(lv) : ~GoodAct(c, lv[i])}
\* servers whose address came along are asked first, as many as there may be
Aside(lv) == {i \in 1..Len(lv) : lv[i].k \in {"far", "unres", "unnd", "unal", "undead", "unloop"}}
LevelMust(c, lv) == LET B == BadOnes(c, lv)
                        U == Aside(lv)
                        a == Len(lv) - Cardinality(U)
                    IN \/ Cardinality(B \ U) < MinOf(c.ns, a)
                       \/ c.ns > a /\ Cardinality(B \cap U) < MinOf(c.ns - a, Cardinality(U))
MustSucceed(c, lvs) == \A j \in 1..Len(lvs) : LevelMust(c, lvs[j])
CanSucceed(c, lvs)  == \A j \in 1..Len(lvs) : Cardinality(BadOnes(c, lvs[j])) < Len(lvs[j])

TruthFaults(S, L, e, W, lvs, an, k) ==
    LET R == Resolve(W, L.n, L.t)
        len == Len(R.chain)
        pl == Plain(an)
        must == R.k # "loop" /\ len < S.conf.cname /\ MustSucceed(S.conf, lvs)
        can  == R.k # "loop" /\ (R.k = "ok" => len <= S.conf.cname) /\ CanSucceed(S.conf, lvs)
    IN IF L.tc THEN {}
       ELSE IF e.ok # "ok" THEN (IF must THEN {"succ"} ELSE {})
       ELSE (IF can THEN {} ELSE {"fail"})
            \cup (CASE R.k = "ok" -> IF /\ ~e.nx
                                        /\ Len(pl) = len + Cardinality(R.recs)
                                        /\ SubSeq(pl, 1, len) = R.chain
                                        /\ {pl[i] : i \in (len + 1)..Len(pl)} = R.recs THEN {} ELSE {"truth"}
                    [] R.k \in {"nx", "nodata"} ->
                          IF e.nx = (R.k = "nx") /\ IsPrefix(pl, R.chain) THEN {} ELSE {"truth"}
                    [] OTHER -> {})

End(S, e, W, lvs) ==
    LET L == Lk(S, e.l)
        an == TLCEval([i \in 1..Len(e.an) |-> LowR(e.an[i])])
        oth == TLCEval([i \in 1..Len(e.ns) |-> LowR(e.ns[i])] \o [i \in 1..Len(e.ar) |-> LowR(e.ar[i])])
        ld == TLCEval(Lead(an, L.n, L.t, 1))
        fin == SubSeq(an, ld.k + 1, Len(an))
        names == {an[i].n : i \in 1..ld.k}
        b1 == IF /\ \A i \in 1..Len(fin) : fin[i].n = ld.n /\ fin[i].t = L.t
                 /\ Cardinality(names) = ld.k /\ (fin # <<>> => ld.n \notin names)
                 /\ ld.k <= S.conf.cname THEN {} ELSE {"chain"}
        b2 == UNION ({Fault(S, e.l, an[i], FALSE) : i \in 1..Len(an)} \cup {Fault(S, e.l, oth[i], FALSE) : i \in 1..Len(oth)})
        b3 == IF e.nx THEN (IF (IF an = <<>> THEN \E x \in L.nxs : x[2] = L.t ELSE <<ld.n, L.t>> \in L.nxs) THEN {} ELSE {"nx"})
              ELSE IF fin = <<>> THEN (IF (IF an = <<>> THEN \E x \in L.nods : x[2] = L.t ELSE <<ld.n, L.t>> \in L.nods) THEN {} ELSE {"nx"})
              ELSE {}
        b4 == IF L.truth /\ W # <<>> THEN TruthFaults(S, L, e, W[1], lvs, an, ld.k) ELSE {}
        kept == {[q |-> f.n, t |-> f.t, dt |-> f.dt, end |-> e.at] :
                    f \in {x \in S.facts : x.l = e.l /\ x.dt # 0 /\ ~x.tc /\ \E i \in 1..Len(an) : an[i].n = x.n /\ an[i].t = x.t /\ an[i].d = x.d}}
    IN CASE e.ok = "panic" -> [S EXCEPT !.bad = @ \cup {"panic"}, !.lk[e.l].done = TRUE]
         [] e.ok = "err" -> [S EXCEPT !.bad = @ \cup b4, !.lk[e.l].done = TRUE, !.lk[e.l].end = e.at]
         [] OTHER -> [S EXCEPT !.bad = @ \cup b1 \cup b2 \cup b3 \cup b4, !.lk[e.l].done = TRUE, !.lk[e.l].end = e.at,
                               !.kept = @ \cup kept]

\* the user removed an entry: it may be asked for again
Drop(S, e) == [S EXCEPT !.kept = {x \in @ : ~(x.q = Lower(e.n) /\ x.t = e.t)}]

Over(S, e) == [S EXCEPT !.bad = @ \cup {"bound"}]

(* A reply is taken in at some moment between its arrival and the next thing   *)
(* the lookup is seen to do; until then its records are as fresh as can be.    *)
Age(S, e) == IF S.open = {} THEN S
             ELSE LET O == {x[2] : x \in S.open} IN
                  [S EXCEPT !.facts = {IF f.m \in O /\ f.exp # Forever THEN [f EXCEPT !.exp = e.at + 1000 * Secs(f.ttl)] ELSE f : f \in @},
                            !.open = {x \in @ : x[1] # e.l}]

Act(S, e, W, lvs)  == CASE e.k = "start" -> Start(S, e)
                        [] e.k = "send"  -> Send(S, e)
                        [] e.k = "recv"  -> Recv(S, e)
                        [] e.k = "over"  -> Over(S, e)
                        [] e.k = "drop"  -> Drop(S, e)
                        [] e.k = "end"   -> End(S, e, W, lvs)
Step(S, e, W, lvs) == Act(TLCEval(Age(S, e)), e, W, lvs)

-----------------------------------------------------------------------------
(* The trace of a lookup (L01).  Items: ask (question, server name), resp,     *)
(* fail, hit (records found in the cache), nshit (servers found in the cache). *)
Asks(tr) == SelectSeq(tr, LAMBDA x : x.k = "ask")
Positions(tr) == SetToSortSeq({i \in 1..Len(tr) : tr[i].k = "ask"}, <)
TraceOk(S, e) ==
    LET L == Lk(S, e.l)
        tr == e.trace
        P == Positions(tr)
        G == L.grp
        an == [i \in 1..Len(e.an) |-> LowR(e.an[i])]
        Upto(j) == IF j < Len(P) THEN P[j + 1] - 1 ELSE Len(tr)
        F == Known(S, e.l)
    IN /\ Len(P) = Len(G)
       /\ \A j \in 1..Len(P) :
            LET x == tr[P[j]]
                after == {tr[i].k : i \in (P[j] + 1)..Upto(j)} \cap {"resp", "fail"}
                first == {i \in (P[j] + 1)..Upto(j) : tr[i].k \in {"resp", "fail"}}
            IN /\ Lower(x.n) = G[j].q /\ x.t = G[j].t
               /\ Lower(x.s) \in G[j].own.names \/ RootName(G[j].ip, Lower(x.s))
               /\ Cardinality(first) = 1
               /\ CASE G[j].res = "none" -> after = {"fail"}
                    [] G[j].res = "yes" -> after = {"resp"}
                    [] OTHER -> TRUE
               \* a server known from the cache only: the hit comes before
               /\ (G[j].own.ns => \E i \in 1..(P[j] - 1) : tr[i].k \in {"nshit", "hit"})
       \* records that were not received during this lookup came from the cache
       /\ e.ok = "ok" =>
            \A i \in 1..Len(an) :
               (~\E f \in S.facts : f.l = e.l /\ f.n = an[i].n /\ f.t = an[i].t /\ f.d = an[i].d)
                  => \E k \in 1..Len(tr) : tr[k].k = "hit" /\ Lower(tr[k].n) = an[i].n /\ tr[k].t = an[i].t
       \* and what is reported as found in the cache was there
       /\ \A k \in 1..Len(tr) :
            /\ tr[k].k = "hit" => \E f \in F : f.n = Lower(tr[k].n) /\ f.t = tr[k].t
            /\ tr[k].k = "nshit" => \E f \in F : f.t = 2 /\ f.n \in Zones(Lower(tr[k].n))
=============================================================================
