------------------------------ MODULE ZoneFile ------------------------------
(* What the text of a zone's files denotes (N05).                              *)
(*                                                                             *)
(* A load is a record [zone, start, main, subs, files]: the zone's name, the   *)
(* TTL to start with, the name of the main file, the sub zones as              *)
(* [zone, start, min, f], and files, a sequence of [f, x] with name and text.  *)
(* Texts are sequences of character codes; TTLs are four bytes.                *)
(*                                                                             *)
(* Verdicts: "ok" the files have to be loaded, with exactly these records;     *)
(* "opt" they may be refused (usage beyond what RFC 1035 and the documentation *)
(* promise), but not misread; "bad" they have to be refused; "any" whatever    *)
(* happens, there must be an outcome.                                          *)
EXTENDS Zone, SequencesExt

NL == 10
SP == 32

-----------------------------------------------------------------------------
(* Lexical structure: logical lines of tokens.                                 *)
(* token [k: "s" or "q" (quoted), t: characters, e: an escape was used]        *)
(* entry [blank: the line starts with white space, toks, v]                    *)
LexInit == [m |-> "start", esc |-> FALSE, cur |-> <<>>, ce |-> FALSE, par |-> FALSE, had |-> FALSE,
            blank |-> FALSE, toks |-> <<>>, v |-> "ok", out |-> <<>>]

Mark(s, v) == IF s.v = "ok" THEN [s EXCEPT !.v = v] ELSE s
EndTok(s) == IF s.m = "tok" THEN [s EXCEPT !.toks = Append(s.toks, [k |-> "s", t |-> s.cur, e |-> s.ce]), !.cur = <<>>, !.ce = FALSE, !.m = "mid"]
             ELSE IF s.m \in {"aft", "start"} THEN [s EXCEPT !.m = "mid"] ELSE s
EndLine(s0) ==
    LET s == EndTok(IF s0.m = "str" THEN Mark([s0 EXCEPT !.m = "mid", !.cur = <<>>, !.ce = FALSE], "any") ELSE s0)
    IN IF s.par THEN [s EXCEPT !.m = "mid"]
       ELSE LET t == IF s.toks = <<>> /\ s.had THEN Mark(s, "any") ELSE s
                keep == t.toks # <<>> \/ t.v # "ok"
            IN [LexInit EXCEPT !.out = IF keep THEN Append(t.out, [blank |-> t.blank, toks |-> t.toks, v |-> t.v]) ELSE t.out]

IsDigit(c) == c >= 48 /\ c <= 57

Lex1(s, c) ==
    IF s.esc THEN
        IF c = NL THEN EndLine(Mark([s EXCEPT !.esc = FALSE], "any"))
        ELSE LET n == [s EXCEPT !.esc = FALSE, !.cur = Append(s.cur, c), !.ce = TRUE]
             IN IF IsDigit(c) \/ c >= 127 \/ c < 32 \/ (c = SP /\ s.m = "tok") THEN Mark(n, "any") ELSE n
    ELSE IF c = NL THEN EndLine(s)
    ELSE IF c >= 127 \/ (c < 32 /\ c # 9) THEN Mark(s, "any")
    ELSE IF s.m = "com" THEN s
    ELSE IF s.m = "str" THEN
        IF c = 34 THEN [s EXCEPT !.toks = Append(s.toks, [k |-> "q", t |-> s.cur, e |-> s.ce]), !.cur = <<>>, !.ce = FALSE, !.m = "aft"]
        ELSE IF c = 92 THEN [s EXCEPT !.esc = TRUE]
        ELSE [s EXCEPT !.cur = Append(s.cur, c)]
    ELSE IF c \in {SP, 9} THEN IF s.m = "start" THEN [s EXCEPT !.blank = TRUE, !.m = "mid"] ELSE EndTok(s)
    ELSE IF c = 40 THEN LET n == [(EndTok(s)) EXCEPT !.par = TRUE, !.had = TRUE]
                        IN IF s.par THEN Mark(n, "bad") ELSE IF s.m = "start" THEN Mark(n, "any") ELSE n
    ELSE IF c = 41 THEN LET n == [(EndTok(s)) EXCEPT !.par = FALSE, !.had = TRUE] IN IF s.par THEN n ELSE Mark(n, "bad")
    ELSE IF c = 59 THEN [(EndTok(s)) EXCEPT !.m = "com"]
    ELSE IF s.m = "aft" THEN Mark([s EXCEPT !.m = "tok", !.cur = <<c>>], "any")
    ELSE IF c = 34 THEN IF s.m = "tok" THEN Mark([s EXCEPT !.cur = Append(s.cur, c)], "any") ELSE [s EXCEPT !.m = "str"]
    ELSE IF c = 92 THEN [s EXCEPT !.m = "tok", !.esc = TRUE]
    ELSE [s EXCEPT !.m = "tok", !.cur = Append(s.cur, c)]

RECURSIVE LexFrom(_, _, _)
LexFrom(s, x, p) == IF p > Len(x) THEN s ELSE LexFrom(TLCEval(Lex1(s, x[p])), x, TLCEval(p + 1))

\* A final state inside parentheses is an error, inside an escape it is not specified
Lex(x) == LET s == TLCEval(LexFrom(LexInit, x, 1))
              f == IF s.esc THEN Mark([s EXCEPT !.esc = FALSE], "any") ELSE s
              g == IF f.par THEN Mark([f EXCEPT !.par = FALSE, !.had = TRUE], "bad") ELSE f
          IN EndLine(g).out

-----------------------------------------------------------------------------
(* Words                                                                       *)
TypeNames == <<<<<<65>>, 1>>, <<<<78, 83>>, 2>>, <<<<67, 78, 65, 77, 69>>, 5>>, <<<<83, 79, 65>>, 6>>, <<<<87, 75, 83>>, 11>>, <<<<80, 84, 82>>, 12>>, <<<<72, 73, 78, 70, 79>>, 13>>, <<<<77, 88>>, 15>>, <<<<84, 88, 84>>, 16>>>>
OtherTypes == {<<77, 68>>, <<77, 70>>, <<77, 66>>, <<77, 71>>, <<77, 82>>, <<78, 85, 76, 76>>, <<77, 73, 78, 70, 79>>, <<65, 88, 70, 82>>, <<77, 65, 73, 76, 66>>, <<77, 65, 73, 76, 65>>}
W_IN == <<73, 78>>
W_ORIGIN == <<36, 79, 82, 73, 71, 73, 78>>
W_INCLUDE == <<36, 73, 78, 67, 76, 85, 68, 69>>
W_TCP == <<84, 67, 80>>
W_UDP == <<85, 68, 80>>
OtherClasses == {<<67, 83>>, <<67, 72>>, <<72, 83>>}
OtherDirs == {<<36, 84, 84, 76>>, <<36, 71, 69, 78, 69, 82, 65, 84, 69>>}

UpL(l) == [i \in 1..Len(l) |-> IF l[i] >= 97 /\ l[i] <= 122 THEN l[i] - 32 ELSE l[i]]
Plain(k) == k.k = "s" /\ ~k.e
TypeOf(w) == LET hit == {i \in 1..Len(TypeNames) : TypeNames[i][1] = w} IN IF hit = {} THEN 0 ELSE TypeNames[CHOOSE i \in hit : TRUE][2]
Keyword(w) == TypeOf(w) # 0 \/ w \in OtherTypes \/ w = W_IN \/ w \in OtherClasses

(* Numbers up to 2^32 - 1 as four bytes                                        *)
Mul10Add(n, d) ==
    LET b4 == n[4] * 10 + d
        b3 == n[3] * 10 + b4 \div 256
        b2 == n[2] * 10 + b3 \div 256
        b1 == n[1] * 10 + b2 \div 256
    IN <<b1, b2 % 256, b3 % 256, b4 % 256>>
RECURSIVE Dec(_, _, _)
Dec(t, p, n) == IF p > Len(t) THEN n ELSE IF n[1] > 255 THEN n ELSE Dec(t, p + 1, TLCEval(Mul10Add(n, t[p] - 48)))
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
IsNum(k) == Plain(k) /\ AllDigits(k.t) /\ Dec(k.t, 1, <<0, 0, 0, 0>>)[1] <= 255
Num(k) == Dec(k.t, 1, <<0, 0, 0, 0>>)
RECURSIVE LessB(_, _)
LessB(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessB(Tail(a), Tail(b))
PlusNum(k) == Len(k.t) > 1 /\ k.t[1] = 43 /\ AllDigits(Tail(k.t))

\* parts of t between the characters c
RECURSIVE SplitAt(_, _, _, _, _)
SplitAt(t, c, p, cur, acc) ==
    IF p > Len(t) THEN Append(acc, cur)
    ELSE IF t[p] = c THEN SplitAt(t, c, p + 1, <<>>, TLCEval(Append(acc, cur)))
    ELSE SplitAt(t, c, p + 1, TLCEval(Append(cur, t[p])), acc)
Split(t, c) == SplitAt(t, c, 1, <<>>, <<>>)

IsAbs(t) == t[Len(t)] = 46
\* the name a token denotes
NameOf(k, origin) ==
    IF k.k = "q" \/ k.e \/ k.t = <<>> \/ k.t[1] = 36 THEN [v |-> "any"]
    ELSE IF k.t = <<64>> THEN [v |-> "ok", n |-> origin]
    ELSE IF k.t = <<46>> THEN [v |-> "ok", n |-> <<>>]
    ELSE LET ps == TLCEval(Split(k.t, 46))
             n == IF IsAbs(k.t) THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps \o origin
         IN IF NameOk(n) THEN [v |-> "ok", n |-> n] ELSE [v |-> "bad"]

\* a.b.c.d
IpOf(k) ==
    IF k.k = "q" \/ k.e THEN [v |-> "any"]
    ELSE LET ps == TLCEval(Split(k.t, 46)) IN
         IF Len(ps) # 4 \/ \E i \in 1..Len(ps) : ~AllDigits(ps[i]) \/ Len(ps[i]) > 3 THEN
              (IF Len(ps) = 4 /\ \A i \in 1..4 : AllDigits(ps[i]) THEN [v |-> IF \E i \in 1..4 : ps[i][1] # 48 /\ Len(ps[i]) > 3 THEN "bad" ELSE "any"] ELSE [v |-> "bad"])
         ELSE IF \E i \in 1..4 : Len(ps[i]) > 1 /\ ps[i][1] = 48 THEN [v |-> "any"]
         ELSE LET b == [i \in 1..4 |-> Dec(ps[i], 1, <<0, 0, 0, 0>>)] IN
              IF \E i \in 1..4 : b[i][3] > 0 THEN [v |-> "bad"] ELSE [v |-> "ok", b |-> [i \in 1..4 |-> b[i][4]]]

-----------------------------------------------------------------------------
(* Entries                                                                     *)
V(v) == [v |-> v]
Seq4(v1, v2) == IF v1 = "any" \/ v1 = "bad" THEN v1 ELSE IF v2 \in {"any", "bad"} THEN v2 ELSE IF "opt" \in {v1, v2} THEN "opt" ELSE "ok"
D(v, nm, by, nu) == [v |-> v, d |-> [nm |-> nm, by |-> by, nu |-> nu]]

\* a service of a WKS record, by number or by its name (RFC 1010)
Service(k) == IF IsNum(k) THEN LET n == Num(k) IN IF n[1] + n[2] > 0 THEN V("any") ELSE [v |-> "ok", n |-> n[3] * 256 + n[4]]
              ELSE IF Plain(k) /\ UpL(k.t) = <<83, 77, 84, 80>> THEN [v |-> "ok", n |-> 25]
              ELSE IF Plain(k) /\ UpL(k.t) = <<68, 79, 77, 65, 73, 78>> THEN [v |-> "ok", n |-> 53]
              ELSE V("any")

RData(t, a, origin) ==
    CASE t = 1 -> IF Len(a) # 1 THEN V("bad") ELSE LET r == IpOf(a[1]) IN IF r.v # "ok" THEN V(r.v) ELSE D("ok", <<>>, <<r.b>>, <<>>)
      [] t \in {2, 5, 12} ->
           IF Len(a) # 1 THEN V("bad")
           ELSE LET r == NameOf(a[1], origin) IN
                IF r.v # "ok" THEN V(r.v) ELSE D(IF t = 12 /\ ~IsAbs(a[1].t) THEN "opt" ELSE "ok", <<r.n>>, <<>>, <<>>)
      [] t = 15 ->
           IF Len(a) # 2 THEN V("bad")
           ELSE IF ~IsNum(a[1]) THEN V(IF a[1].k = "q" \/ a[1].e THEN "any" ELSE "bad")
           ELSE LET p == Num(a[1])
                    r == NameOf(a[2], origin)
                IN IF p[1] + p[2] > 0 THEN V("bad") ELSE IF r.v # "ok" THEN V(r.v) ELSE D("ok", <<r.n>>, <<>>, <<p[3] * 256 + p[4]>>)
      [] t = 16 ->
           IF a = <<>> THEN V("bad")
           ELSE IF \E i \in 1..Len(a) : a[i].k = "s" /\ (a[i].t = <<64>> \/ a[i].t[1] = 36) THEN V("any")
           ELSE IF \E i \in 1..Len(a) : Len(a[i].t) > 255 THEN V("bad")
           ELSE D("ok", <<>>, [i \in 1..Len(a) |-> a[i].t], <<>>)
      [] t = 13 ->
           IF Len(a) # 2 THEN V("bad")
           ELSE IF \E i \in 1..2 : a[i].k = "s" /\ (a[i].t = <<64>> \/ a[i].t[1] = 36) THEN V("any")
           ELSE IF \E i \in 1..2 : Len(a[i].t) > 255 THEN V("bad")
           ELSE D("ok", <<>>, <<a[1].t, a[2].t>>, <<>>)
      [] t = 11 ->
           IF Len(a) < 2 THEN V("bad")
           ELSE LET r == IpOf(a[1]) IN
                IF r.v # "ok" THEN V(r.v)
                ELSE IF a[2].k = "q" \/ a[2].e \/ (UpL(a[2].t) \in {W_TCP, W_UDP} /\ a[2].t \notin {W_TCP, W_UDP}) THEN V("any")
                ELSE IF a[2].t \notin {W_TCP, W_UDP} THEN V("any")
                ELSE LET svc == [i \in 1..Len(a) - 2 |-> Service(a[i + 2])] IN
                     IF \E i \in 1..Len(svc) : svc[i].v # "ok" THEN V("any")
                     ELSE D("ok", <<>>, <<r.b, <<IF a[2].t = W_TCP THEN 6 ELSE 17>>>>, SetToSortSeq({svc[i].n : i \in 1..Len(svc)}, <))
      [] t = 6 ->
           IF Len(a) # 7 THEN V("bad")
           ELSE LET r == NameOf(a[1], origin)
                    s == NameOf(a[2], origin)
                IN IF r.v # "ok" THEN V(r.v) ELSE IF s.v # "ok" THEN V(s.v)
                   ELSE IF \E i \in 3..7 : a[i].k = "q" \/ a[i].e THEN V("any")
                   ELSE IF \E i \in 3..7 : ~IsNum(a[i]) THEN V("bad")
                   ELSE D("ok", <<r.n, s.n>>, <<Num(a[3]) \o Num(a[4]) \o Num(a[5]) \o Num(a[6]) \o Num(a[7])>>, <<>>)

\* [ttl] [class] type data, from token p on; ttl is the default
Body(toks, p, ttl, origin) ==
    LET has(i) == i <= Len(toks)
        cls(i) == has(i) /\ Plain(toks[i]) /\ (toks[i].t = W_IN \/ toks[i].t \in OtherClasses)
        num(i) == has(i) /\ IsNum(toks[i])
        lead == IF num(p) THEN IF cls(p + 1) THEN [t |-> p, c |-> p + 1, n |-> p + 2] ELSE [t |-> p, c |-> 0, n |-> p + 1]
                ELSE IF cls(p) THEN IF num(p + 1) THEN [t |-> p + 1, c |-> p, n |-> p + 2] ELSE [t |-> 0, c |-> p, n |-> p + 1]
                ELSE [t |-> 0, c |-> 0, n |-> p]
        n == lead.n
    IN IF \E i \in p..Len(toks) : PlusNum(toks[i]) /\ i <= n THEN V("any")
       ELSE IF ~has(n) THEN V("bad")
       ELSE IF ~Plain(toks[n]) THEN V("any")
       ELSE IF TypeOf(toks[n].t) = 0 THEN V(IF Keyword(UpL(toks[n].t)) /\ ~Keyword(toks[n].t) THEN "any" ELSE "bad")
       ELSE IF lead.c > 0 /\ toks[lead.c].t # W_IN THEN V("bad")
       ELSE LET t == TypeOf(toks[n].t)
                l == IF lead.t > 0 THEN Num(toks[lead.t]) ELSE ttl
                a == SubSeq(toks, n + 1, Len(toks))
                d == IF \E i \in 1..Len(a) : PlusNum(a[i]) /\ t \in {6, 15} THEN V("any") ELSE TLCEval(RData(t, a, origin))
            IN IF d.v \in {"any", "bad"} THEN d
               ELSE [v |-> IF lead.t > 0 /\ l[1] >= 128 THEN "opt" ELSE d.v, t |-> t, ttl |-> l, d |-> d.d, cls |-> lead.c > 0]

\* the owner of an entry and where its body begins
Owner(e, origin) ==
    IF e.blank THEN [v |-> "ok", n |-> origin, p |-> 1]
    ELSE LET r == NameOf(e.toks[1], origin) IN IF r.v = "ok" THEN [v |-> "ok", n |-> r.n, p |-> 2] ELSE r

RR(n, b) == [n |-> n, t |-> b.t, c |-> 1, ttl |-> b.ttl, d |-> b.d]
Out(v, recs) == [v |-> v, recs |-> recs]

FileNo(L, name) == LET hit == {i \in 1..Len(L.files) : L.files[i].f = name} IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE
InAuth(L, n) == InZone(n, L.zone) /\ \A k \in 1..Len(L.subs) : ~InZone(n, L.subs[k].zone)

(* The entries es of a file from number k on.  stack: files being read         *)
RECURSIVE Entries(_, _, _, _, _, _, _, _, _)
Entries(L, es, k, origin, ttl, min, stack, v, recs) ==
    IF k > Len(es) THEN Out(v, recs)
    ELSE LET e == es[k] IN
    IF e.v # "ok" THEN Out(e.v, <<>>)
    ELSE IF e.toks[1].k = "s" /\ e.toks[1].t[1] = 36 /\ ~e.toks[1].e THEN
        LET w == e.toks[1].t
            a == Tail(e.toks)
            weird == e.blank \/ (UpL(w) \in {W_ORIGIN, W_INCLUDE} /\ w \notin {W_ORIGIN, W_INCLUDE}) \/ UpL(w) \in OtherDirs
                     \/ \E i \in 1..Len(a) : ~Plain(a[i])
        IN IF weird THEN Out("any", <<>>)
           ELSE IF w = W_ORIGIN THEN
               IF Len(a) # 1 THEN Out("bad", <<>>)
               ELSE LET r == NameOf(a[1], origin) IN
                    IF r.v # "ok" THEN Out(r.v, <<>>)
                    ELSE Entries(L, es, k + 1, TLCEval(r.n), ttl, min, stack, TLCEval(Seq4(v, IF IsAbs(a[1].t) /\ InAuth(L, r.n) THEN "ok" ELSE "opt")), recs)
           ELSE IF w = W_INCLUDE THEN
               IF Len(a) \notin {1, 2} THEN Out("bad", <<>>)
               ELSE LET r == IF Len(a) = 2 THEN NameOf(a[2], origin) ELSE [v |-> "ok", n |-> origin]
                        f == FileNo(L, a[1].t)
                    IN IF r.v # "ok" THEN Out(r.v, <<>>)
                       ELSE IF f = 0 THEN Out("bad", <<>>)
                       ELSE IF f \in stack THEN Out("bad", <<>>)
                       ELSE IF Cardinality(stack) > 8 THEN Out("any", <<>>)
                       ELSE LET v2 == Seq4(v, IF InAuth(L, r.n) /\ (Len(a) < 2 \/ a[2].t # <<64>>) THEN "ok" ELSE "opt")
                                s == TLCEval(Entries(L, TLCEval(Lex(L.files[f].x)), 1, r.n, ttl, min, stack \cup {f}, "ok", <<>>))
                            IN IF s.v \in {"any", "bad"} THEN Out(s.v, <<>>)
                               ELSE Entries(L, es, k + 1, origin, ttl, min, stack, TLCEval(Seq4(v2, s.v)), TLCEval(recs \o s.recs))
           ELSE Out("bad", <<>>)
    ELSE LET o == TLCEval(Owner(e, origin)) IN
         IF o.v # "ok" THEN Out(o.v, <<>>)
         ELSE LET b == TLCEval(Body(e.toks, o.p, ttl, origin)) IN
              IF ~InAuth(L, o.n) THEN Out(IF b.v = "any" THEN "any" ELSE "bad", <<>>)
              ELSE IF b.v \in {"any", "bad"} THEN Out(b.v, <<>>)
              ELSE IF b.t = 6 \/ LessB(b.ttl, min) THEN Out("bad", <<>>)
              ELSE Entries(L, es, k + 1, origin, b.ttl, min, stack, TLCEval(Seq4(v, b.v)), TLCEval(Append(recs, RR(o.n, b))))

(* The main file: a SOA record first.  afterSoa: whether the TTL of the SOA    *)
(* is the "previous" one for the next record (both readings are accepted).     *)
Main(L, afterSoa) ==
    LET f == FileNo(L, L.main) IN
    IF f = 0 THEN Out("bad", <<>>)
    ELSE LET es == TLCEval(Lex(L.files[f].x)) IN
         IF es = <<>> THEN Out("bad", <<>>)
         ELSE LET e == es[1] IN
              IF e.v # "ok" THEN Out(e.v, <<>>)
              ELSE IF e.toks[1].k = "s" /\ e.toks[1].t[1] = 36 THEN Out("any", <<>>)
              ELSE LET o == TLCEval(Owner(e, L.zone)) IN
                   IF o.v # "ok" THEN Out(o.v, <<>>)
                   ELSE LET b == TLCEval(Body(e.toks, o.p, L.start, L.zone)) IN
                        IF ~SameName(o.n, L.zone) THEN Out(IF b.v = "any" THEN "any" ELSE "bad", <<>>)
                        ELSE IF b.v \in {"any", "bad"} THEN Out(b.v, <<>>)
                        ELSE IF b.t # 6 THEN Out("bad", <<>>)
                        ELSE LET min == SubSeq(b.d.by[1], 17, 20) IN
                             IF LessB(b.ttl, min) THEN Out("bad", <<>>)
                             ELSE IF ~b.cls THEN Out("any", <<>>)
                             ELSE Entries(L, es, 2, L.zone, TLCEval(IF afterSoa THEN b.ttl ELSE L.start), min, {f}, b.v, <<RR(o.n, b)>>)

(* A sub zone file: NS and A records, no directives.                           *)
RECURSIVE SubEntries(_, _, _, _, _, _)
SubEntries(S, es, k, ttl, v, recs) ==
    IF k > Len(es) THEN Out(v, recs)
    ELSE LET e == es[k] IN
    IF e.v # "ok" THEN Out(e.v, <<>>)
    ELSE IF e.toks[1].k = "s" /\ e.toks[1].t[1] = 36 THEN Out(IF e.blank THEN "any" ELSE "bad", <<>>)
    ELSE LET o == TLCEval(Owner(e, S.zone)) IN
         IF o.v # "ok" THEN Out(o.v, <<>>)
         ELSE LET b == TLCEval(Body(e.toks, o.p, ttl, S.zone)) IN
              IF ~InZone(o.n, S.zone) THEN Out(IF b.v = "any" THEN "any" ELSE "bad", <<>>)
              ELSE IF b.v \in {"any", "bad"} THEN Out(b.v, <<>>)
              ELSE IF b.t \notin {1, 2} \/ LessB(b.ttl, S.min) THEN Out("bad", <<>>)
              ELSE SubEntries(S, es, k + 1, b.ttl, TLCEval(Seq4(v, b.v)), TLCEval(Append(recs, RR(o.n, b))))

SubFile(L, S) == LET f == FileNo(L, S.f) IN
    IF f = 0 THEN Out("bad", <<>>) ELSE SubEntries(S, TLCEval(Lex(L.files[f].x)), 1, S.start, "ok", <<>>)

Load(L, afterSoa) ==
    LET a == TLCEval(Main(L, afterSoa))
        ss == TLCEval([k \in 1..Len(L.subs) |-> SubFile(L, L.subs[k])])
        vs == {a.v} \cup {ss[k].v : k \in 1..Len(ss)}
        Z == [zone |-> L.zone, recs |-> a.recs, subs |-> [k \in 1..Len(ss) |-> [zone |-> L.subs[k].zone, recs |-> ss[k].recs]]]
    IN IF "bad" \in vs THEN [v |-> "bad"]
       ELSE IF "any" \in vs THEN [v |-> "any"]
       ELSE IF ~Consistent(Z) THEN [v |-> "bad"]
       ELSE [v |-> IF "opt" \in vs THEN "opt" ELSE "ok", Z |-> Z]
=============================================================================
