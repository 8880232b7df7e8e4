-------------------------------- MODULE Conf --------------------------------
(* F01: what a configuration file must hold.  A configuration is a sequence of *)
(* [p, v]: the path of a field and its JSON value                              *)
(*  [k |-> "int", neg, d] (decimal digits), "real", "str" with s (characters), *)
(*  "bool" with b, "null", "none" (not there), "obj", "arr",                   *)
(*  "subs" with e, a sequence of sub zones [ttl, min, zone, file] of values.   *)
(* Verdicts: "ok" must be accepted, "bad" must be refused, "any" is left open. *)
EXTENDS Names, Integers, FiniteSets, TLC

\* ------------------------------------------------------------ numbers
\* decimals without leading zeros, most significant digit first
RECURSIVE LexLe(_, _, _)
LexLe(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLe(a, b, k + 1)
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b, 1))
D64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
D32 == <<4,2,9,4,9,6,7,2,9,5>>
D16 == <<6,5,5,3,5>>
Zero(v) == v.d = <<0>>
\* a number between lo (0 or 1) and max; beyond sure it is left open
Num(v, lo, sure, max) ==
    CASE v.k = "real" -> "any"
      [] v.k # "int" -> "bad"
      [] v.neg /\ ~Zero(v) -> "bad"
      [] v.neg -> IF lo = 0 THEN "any" ELSE "bad"
      [] Zero(v) -> IF lo = 0 THEN "ok" ELSE "bad"
      [] Le(v.d, sure) -> "ok"
      [] Le(v.d, max) -> "any"
      [] OTHER -> "bad"
Million == <<1,0,0,0,0,0,0>>

\* ------------------------------------------------------------ texts
RECURSIVE Split(_, _, _)
Split(s, c, from) ==
    LET ks == {k \in from..Len(s) : s[k] = c} IN
    IF ks = {} THEN <<SubSeq(s, from, Len(s))>>
    ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y IN <<SubSeq(s, from, k - 1)>> \o Split(s, c, k + 1)
IsDigit(c) == c >= 48 /\ c <= 57
IsLower(c) == c >= 97 /\ c <= 122
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
Val(s) == CASE Len(s) = 1 -> s[1] - 48
            [] Len(s) = 2 -> (s[1] - 48) * 10 + (s[2] - 48)
            [] OTHER -> (s[1] - 48) * 100 + (s[2] - 48) * 10 + (s[3] - 48)
Octet(s) == Len(s) \in 1..3 /\ (\A k \in 1..Len(s) : IsDigit(s[k])) /\ Val(s) <= 255
Zeros(s) == Len(s) > 1 /\ s[1] = 48
V4(s) == LET ps == Split(s, 46, 1) IN Len(ps) = 4 /\ \A k \in 1..4 : Octet(ps[k])
\* leading zeros are read differently by different programs
V4Zeros(s) == LET ps == Split(s, 46, 1) IN \E k \in 1..Len(ps) : Zeros(ps[k])
Group(s) == Len(s) \in 1..4 /\ \A k \in 1..Len(s) : IsHex(s[k])
\* number of 16-bit groups, 99 if it is malformed
Count(s, end) ==
    IF s = <<>> THEN 0
    ELSE LET ps == Split(s, 58, 1)
             n == Len(ps)
             tail == end /\ V4(ps[n])
         IN IF (\A k \in 1..(n - 1) : Group(ps[k])) /\ (tail \/ Group(ps[n])) THEN (IF tail THEN n + 1 ELSE n) ELSE 99
Doubles(s) == {k \in 1..(Len(s) - 1) : s[k] = 58 /\ s[k + 1] = 58}
V6(s) == IF Doubles(s) = {} THEN Count(s, TRUE) = 8
         ELSE LET p == CHOOSE k \in Doubles(s) : \A y \in Doubles(s) : k <= y IN
              Count(SubSeq(s, 1, p - 1), FALSE) + Count(SubSeq(s, p + 2, Len(s)), TRUE) <= 7
Addr(v) == IF v.k # "str" THEN "bad"
           ELSE IF \E k \in 1..Len(v.s) : v.s[k] = 37 THEN "any"
           ELSE IF V4(v.s) \/ V6(v.s) THEN (IF V4Zeros(v.s) THEN "any" ELSE "ok")
           ELSE "bad"
\* an absolute name
TextName(s) == IF s = <<46>> THEN <<>> ELSE Split(SubSeq(s, 1, Len(s) - 1), 46, 1)
NameText(v) == IF v.k # "str" THEN "bad"
               ELSE IF v.s = <<>> \/ v.s[Len(v.s)] # 46 THEN "bad"
               ELSE IF NameOk(TextName(v.s)) THEN "ok" ELSE "bad"
Levels == {<<101,114,114,111,114>>, <<119,97,114,110>>, <<105,110,102,111>>, <<100,101,98,117,103>>, <<116,114,97,99,101>>}
Proper(s) == ~IsLower(s[1]) /\ \A k \in 2..Len(s) : IsLower(s[k])
Level(v) == IF v.k # "str" THEN "bad"
            ELSE IF LowerL(v.s) \notin Levels THEN "bad"
            ELSE IF Proper(v.s) THEN "ok" ELSE "any"
Path(v) == IF v.k # "str" THEN "bad" ELSE IF v.s = <<>> THEN "any" ELSE "ok"

\* ------------------------------------------------------------ fields
Worst(q) == IF "bad" \in q THEN "bad" ELSE IF "any" \in q THEN "any" ELSE "ok"
U32(v) == Num(v, 0, D32, D32)
Subs(v) == IF v.k # "subs" THEN "bad"
           ELSE Worst(UNION {{U32(v.e[k].ttl), U32(v.e[k].min), NameText(v.e[k].zone), Path(v.e[k].file)} : k \in 1..Len(v.e)})
Type(p) ==
    CASE p = "log_level" -> "level"
      [] p \in {"udp_server.address", "tcp_server.address"} -> "addr"
      [] p \in {"udp_server.port", "tcp_server.port"} -> "port"
      [] p \in {"udp_server.write_timeout", "tcp_server.write_timeout", "tcp_server.read_timeout", "resolver.read_timeout",
                "resolver.write_timeout", "resolver.cache_conf.clean_period"} -> "secs"
      [] p \in {"udp_server.threads", "tcp_server.threads", "resolver.max_ns_queried", "resolver.max_ns_retries",
                "resolver.max_cname_redir", "resolver.cache_conf.entries_cleaned"} -> "count"
      [] p \in {"resolver.trace_conf.silent", "resolver.trace_conf.verbose", "resolver.trace_conf.color"} -> "bool"
      [] p = "zone.starting_ttl" -> "u32"
      [] p = "zone.zone" -> "name"
      [] p = "zone.file" -> "path"
      [] p = "zone.sub_zones" -> "subs"
      [] OTHER -> "group"
Field(f) ==
    LET t == Type(f.p)
        v == f.v
    IN CASE t = "level" -> Level(v)
         [] t = "addr" -> Addr(v)
         [] t = "port" -> IF v.k = "int" /\ Zero(v) THEN "any" ELSE Num(v, 1, D16, D16)
         [] t = "secs" -> Num(v, 1, Million, D64)
         [] t = "count" -> Num(v, 1, Million, D64)
         [] t = "u32" -> U32(v)
         [] t = "bool" -> IF v.k = "bool" THEN "ok" ELSE "bad"
         [] t = "name" -> NameText(v)
         [] t = "path" -> Path(v)
         [] t = "subs" -> Subs(v)
         [] t = "group" -> IF v.k = "keep" THEN "ok" ELSE "bad"
Verdict(fs) == Worst({Field(fs[k]) : k \in 1..Len(fs)})

\* the value read back is the value written
SameText(a, b) == a.k = "str" /\ a.s = b.s
SameNum(a, b) == a.k = "int" /\ ~a.neg /\ a.d = b.d
Same(p, got, v) ==
    CASE v.k \notin {"int", "str", "bool", "subs"} -> TRUE
      [] Type(p) = "group" -> TRUE
      [] Type(p) = "level" -> got.k = "str" /\ LowerL(got.s) = LowerL(v.s)
      [] v.k = "int" -> v.neg \/ SameNum(got, v)
      [] v.k = "str" -> SameText(got, v)
      [] v.k = "bool" -> got = v
      [] v.k = "subs" -> /\ (IF got.k = "arr" THEN v.e = <<>> ELSE got.k = "subs" /\ Len(got.e) = Len(v.e))
                         /\ \A k \in 1..Len(v.e) : /\ SameNum(got.e[k].ttl, v.e[k].ttl) /\ SameNum(got.e[k].min, v.e[k].min)
                                                   /\ SameText(got.e[k].zone, v.e[k].zone) /\ SameText(got.e[k].file, v.e[k].file)
=============================================================================
