-------------------------------- MODULE Zone --------------------------------
(* A name server's data and what it answers (N03, N04, N06).                   *)
(* Z = [zone, recs, subs], subs a sequence of [zone, recs]; recs sequences of  *)
(* records [n, t, c, ttl, d] as in Wire.tla, in the order of the file.         *)
EXTENDS Wire

Range(s) == {s[i] : i \in 1..Len(s)}
Sel(recs, n, t) == SelectSeq(recs, LAMBDA r : r.t = t /\ SameName(r.n, n))
OfType(recs, t) == SelectSeq(recs, LAMBDA r : r.t = t)
Target(r) == r.d.nm[1]

SubsOf(Z, n) == {k \in 1..Len(Z.subs) : InZone(n, Z.subs[k].zone)}

(* N06: what may be served.                                                    *)
AuthOk(Z) ==
    /\ Len(Z.recs) >= 1
    /\ Z.recs[1].t = 6 /\ SameName(Z.recs[1].n, Z.zone)
    /\ \A i \in 2..Len(Z.recs) : Z.recs[i].t # 6
    /\ OfType(Z.recs, 2) # <<>>
    /\ \A i \in 1..Len(Z.recs) : LET r == Z.recs[i] IN
          /\ InZone(r.n, Z.zone) /\ SubsOf(Z, r.n) = {}
          /\ r.t = 2 => SameName(r.n, Z.zone)

Mentioned(Z) == {Lower(Target(r)) : r \in UNION {{x \in Range(Z.subs[k].recs) : x.t = 2} : k \in 1..Len(Z.subs)}}

SubOk(Z, k) ==
    LET S == Z.subs[k] IN
    /\ OfType(S.recs, 2) # <<>>
    /\ \A i \in 1..Len(S.recs) : LET r == S.recs[i] IN
          \/ r.t = 2 /\ SameName(r.n, S.zone)
          \/ r.t = 1 /\ InZone(r.n, S.zone) /\ Lower(r.n) \in Mentioned(Z)

GlueOk(Z) == \A n \in Mentioned(Z) : \A k \in SubsOf(Z, n) : Sel(Z.subs[k].recs, n, 1) # <<>>

Consistent(Z) == AuthOk(Z) /\ GlueOk(Z) /\ \A k \in 1..Len(Z.subs) : SubOk(Z, k)

(* N03, N04: the answer to a question for name n and type t.                   *)
(* rc is the set of allowed result codes; k is the sub zone the name is       *)
(* delegated to (where sub zones are nested, any of those it lies in), or 0.   *)
AnswerFrom(Z, n, t, k) ==
    IF ~InZone(n, Z.zone) THEN [rc |-> {5}, aa |-> {0, 1}, an |-> <<>>, ns |-> <<>>, ar |-> <<>>]
    ELSE IF k # 0 THEN
        LET nss == Sel(Z.subs[k].recs, Z.subs[k].zone, 2)
            names == {Lower(Target(r)) : r \in Range(nss)}
            glue(j) == SelectSeq(Z.subs[j].recs, LAMBDA r : r.t = 1 /\ Lower(r.n) \in names)
            RECURSIVE All(_)
            All(j) == IF j > Len(Z.subs) THEN <<>> ELSE glue(j) \o All(j + 1)
        IN [rc |-> {0}, aa |-> {0}, an |-> <<>>, ns |-> nss, ar |-> All(1)]
    ELSE
        LET direct == Sel(Z.recs, n, t)
            alias == Sel(Z.recs, n, 5)
            owns == SelectSeq(Z.recs, LAMBDA r : SameName(r.n, n)) # <<>>
            pos(rs) == [rc |-> {0}, aa |-> {1}, an |-> rs, ns |-> <<>>, ar |-> <<>>]
        IN IF direct # <<>> THEN pos(direct)
           ELSE IF alias # <<>> THEN pos(alias)
           ELSE [rc |-> IF owns THEN {0, 3} ELSE {3}, aa |-> {1}, an |-> <<>>, ns |-> Sel(Z.recs, Z.zone, 6), ar |-> <<>>]

Answer(Z, n, t) == AnswerFrom(Z, n, t, IF SubsOf(Z, n) = {} THEN 0 ELSE CHOOSE k \in SubsOf(Z, n) : TRUE)

\* got (decoded, lower case) holds all and only the records of want; duplicates in want may be left out
SameRecs(got, want) ==
    LET w == [i \in 1..Len(want) |-> LowR(want[i])] IN
    /\ Range(got) = Range(w)
    /\ Len(got) <= Len(w)
\* got is what is left of want in a truncated reply
PartRecs(got, want) == Range(got) \subseteq {LowR(want[i]) : i \in 1..Len(want)}

\* the sections of a reply m to a question; additional glue may be repeated per name server
AnswerOk(Z, n, t, m) ==
    \E k \in (IF SubsOf(Z, n) = {} THEN {0} ELSE SubsOf(Z, n)) :
    LET a == TLCEval(AnswerFrom(Z, n, t, k)) IN
    /\ m.h.rc \in a.rc /\ m.h.aa \in a.aa
    /\ IF m.h.tc = 1 THEN PartRecs(m.an, a.an) /\ PartRecs(m.ns, a.ns) /\ PartRecs(m.ar, a.ar)
       ELSE /\ SameRecs(m.an, a.an) /\ SameRecs(m.ns, a.ns)
            /\ Range(m.ar) = {LowR(a.ar[i]) : i \in 1..Len(a.ar)}
=============================================================================
