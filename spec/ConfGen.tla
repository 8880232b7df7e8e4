------------------------------ MODULE ConfGen -------------------------------
(* Configurations of both programs that differ in one field, or in two, from a *)
(* valid one.  Values are JSON texts; NONE leaves the field out.               *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS AllPairs
Q(s) == "\"" \o s \o "\""
L9 == "abcdefghi"
L63 == L9 \o L9 \o L9 \o L9 \o L9 \o L9 \o L9
Sub(t, m, z, f) == "{\"starting_ttl\":" \o t \o ",\"min_ttl\":" \o m \o ",\"zone\":" \o z \o ",\"file\":" \o f \o "}"
SubZ(z) == Sub("5", "6", Q(z), Q("f1"))
Kind == [log_level |-> "level", address |-> "addr", port |-> "port", write_timeout |-> "secs", read_timeout |-> "secs", clean_period |-> "secs",
         threads |-> "count", max_ns_queried |-> "count", max_ns_retries |-> "count", max_cname_redir |-> "count", entries_cleaned |-> "count",
         silent |-> "bool", verbose |-> "bool", color |-> "bool", starting_ttl |-> "u32", zone |-> "name", file |-> "path", sub_zones |-> "subs"]
Wrong == <<"null", "NONE", "[]", "{}", "true", Q("5"), "3.5">>
\* the first three are used in pairs: a proper value, an improper one, and a missing one
Alts == [
  level |-> <<Q("Warn"), Q("Off"), "NONE", Q("Error"), Q("Info"), Q("Debug"), Q("Trace"), Q("info"), Q("WARN"), Q(""), Q("Verbose"), "1", "null", "[]", "{}">>,
  addr |-> <<Q("::1"), Q("1.2.3"), "NONE", Q("0.0.0.0"), Q("::"), Q("255.255.255.255"), Q("256.0.0.1"), Q("1.2.3.4.5"), Q("01.2.3.4"), Q(""), Q(" 127.0.0.1"), Q("127.0.0.1 "),
             Q("127.0.0.1:53"), Q("localhost"), Q("example.com."), Q("1:2:3:4:5:6:7:8"), Q("1:2:3:4:5:6:7"), Q("1::2::3"), Q("::ffff:1.2.3.4"), Q("1.2.3.4::"), Q("::12345"),
             Q("[::1]"), Q("fe80::1%lo"), Q(":::"), Q("1:2:3:4:5:6:7::"), Q("::1:2:3:4:5:6:7"), Q("::1:2:3:4:5:6:7:8"), Q("ABCD::ef01"), Q("g::1"), Q("1.2.3.-4"), "null", "5", "[]", "true">>,
  port |-> <<"54", "65536", "NONE", "1", "65535", "0", "-1", "99999999999999999999">> \o Wrong,
  secs |-> <<"7", "0", "NONE", "1", "100000", "18446744073709551615", "18446744073709551616", "-1", "1e1", "-0", "0.0">> \o Wrong,
  count |-> <<"8", "0", "NONE", "1", "1000", "18446744073709551615", "18446744073709551616", "-1", "1e1", "-0">> \o Wrong,
  bool |-> <<"true", "0", "NONE", "false", Q("true"), "1", "null", "[]">>,
  u32 |-> <<"0", "4294967296", "NONE", "1", "4294967295", "2147483648", "-1", "18446744073709551616">> \o Wrong,
  name |-> <<Q("."), Q("a..b."), "NONE", Q("a."), Q("A.b-c.1."), Q("example.com"), Q(""), Q(".."), Q(".a."), Q("-a."), Q("a-."), Q("a_b."), Q("a b."), Q("a\\\\b."), Q("\\u00e9."),
             Q(L63 \o "."), Q(L63 \o "a."), Q(L63 \o "." \o L63 \o "." \o L63 \o ".abcdefghiabcdefghiabcdefghiabcdefghiabcdefghiabcdefghiabcdefg."),
             Q(L63 \o "." \o L63 \o "." \o L63 \o ".abcdefghiabcdefghiabcdefghiabcdefghiabcdefghiabcdefghiabcdefgh."), Q("\\n."), "null", "1", "[]", "{}">>,
  path |-> <<Q("f2"), "7", "NONE", Q("/x/y z.\\\"q"), Q("\\u00e9"), Q(""), "null", "[]">>,
  subs |-> <<"[]", "[" \o SubZ("a..b.") \o "]", "NONE", "[" \o SubZ("s.x.") \o "]", "[" \o SubZ("a.x.") \o "," \o SubZ("b.x.") \o "," \o SubZ("c.x.") \o "]",
             "[" \o SubZ("a.x.") \o "," \o SubZ("b.x") \o "]", "[" \o SubZ("-.x.") \o "," \o SubZ("b.x.") \o "]",
             "[" \o SubZ("a.x.") \o "," \o SubZ("b.x.") \o "," \o SubZ("") \o "]",
             "[" \o Sub("-1", "6", Q("a.x."), Q("f")) \o "]", "[" \o Sub("4294967296", "6", Q("a.x."), Q("f")) \o "]", "[" \o Sub("4294967295", "0", Q("a.x."), Q("f")) \o "]",
             "[" \o Sub("0", "4294967296", Q("a.x."), Q("f")) \o "]", "[" \o Sub("0", "NONE", Q("a.x."), Q("f")) \o "]", "[" \o Sub("NONE", "0", Q("a.x."), Q("f")) \o "]",
             "[" \o Sub("0", "9", "NONE", Q("f")) \o "]", "[" \o Sub("0", "9", Q("a.x."), "NONE") \o "]", "[" \o Sub("0", "9", Q("a.x."), "3") \o "]", "[" \o Sub("0", "9", "null", Q("f")) \o "]",
             "[" \o Sub(Q("0"), "9", Q("a.x."), Q("f")) \o "]", "null", "1", "{}", Q("a.x."), "[1]", "[null]", "[[]]">>,
  group |-> <<"KEEP", "null", "NONE", "{}", "[]", "1", Q("x")>>]
F(p, l, v) == [p |-> p, t |-> Kind[l], v |-> v]
G(p) == [p |-> p, t |-> "group", v |-> "KEEP"]
Common == << F("log_level", "log_level", Q("Info")), G("udp_server"), F("udp_server.address", "address", Q("127.0.0.1")), F("udp_server.port", "port", "4000"),
   F("udp_server.write_timeout", "write_timeout", "2"), F("udp_server.threads", "threads", "16"),
   G("tcp_server"), F("tcp_server.address", "address", Q("127.0.0.2")), F("tcp_server.port", "port", "4001"), F("tcp_server.read_timeout", "read_timeout", "3"),
   F("tcp_server.write_timeout", "write_timeout", "4"), F("tcp_server.threads", "threads", "9") >>
Base == [ns |-> Common \o << G("zone"), F("zone.zone", "zone", Q("x.")), F("zone.file", "file", Q("f0")), F("zone.starting_ttl", "starting_ttl", "1000"),
                             F("zone.sub_zones", "sub_zones", "[" \o SubZ("s.x.") \o "]") >>,
         rs |-> Common \o << G("resolver"), F("resolver.max_ns_queried", "max_ns_queried", "5"), F("resolver.max_ns_retries", "max_ns_retries", "6"),
                             F("resolver.max_cname_redir", "max_cname_redir", "10"), F("resolver.read_timeout", "read_timeout", "11"), F("resolver.write_timeout", "write_timeout", "12"),
                             G("resolver.cache_conf"), F("resolver.cache_conf.clean_period", "clean_period", "60"), F("resolver.cache_conf.entries_cleaned", "entries_cleaned", "1003"),
                             G("resolver.trace_conf"), F("resolver.trace_conf.silent", "silent", "false"), F("resolver.trace_conf.verbose", "verbose", "false"),
                             F("resolver.trace_conf.color", "color", "false") >>]
VARIABLES prog, a, x, b, y
vars == <<prog, a, x, b, y>>
Alt(f) == Alts[f.t]
Init == /\ prog \in {"ns", "rs"}
        /\ a \in 1..Len(Base[prog]) /\ x \in 0..Len(Alt(Base[prog][a]))
        /\ b \in 0..Len(Base[prog])
        /\ y \in IF b = 0 THEN {0} ELSE 1..Len(Alt(Base[prog][b]))
        /\ (x = 0 => b = 0 /\ a = 1)
        /\ (b # 0 => a < b /\ (AllPairs \/ (x <= 3 /\ y <= 3)))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Value(k) == LET f == Base[prog][k] IN IF k = b THEN Alt(f)[y] ELSE IF k = a /\ x > 0 THEN Alt(f)[x] ELSE f.v
Gen == PrintT(<<"GEN", ToJson([prog |-> prog, base |-> x = 0, fs |-> [k \in 1..Len(Base[prog]) |-> [p |-> Base[prog][k].p, v |-> Value(k)]]])>>)
=============================================================================
