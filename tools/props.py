import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
W="src/shared/dns/"; B="src/resolver/back_end/"; Z="src/nameserver/zones/"
NOT="The only tests of the repository are 11 unit tests of the bit buffer; "
p("C01","Messages mean the same before encoding and after decoding",
"Encoding any supported DNS message and reading the bytes back as RFC 1035 prescribes yields the same header fields, questions and records, for every supported record type, all field values and all legal names including the root. A message produced by another implementation, with or without name compression, is decoded to exactly the header, questions and records its bytes denote, except that questions and records of unknown types are skipped without disturbing the rest.",
["inputs"],"all messages over the supported types and all RFC 1035 byte encodings of them (bounded: up to 6 entries per section, names up to 255 octets)",
NOT+"no message, name or record is ever encoded or decoded by a test, and the space of messages is unbounded.",
[W+"message.rs",W+"header.rs",W+"name.rs",W+"questions.rs",W+"records.rs",W+"types.rs",W+"class.rs",W+"utils.rs"],
[("per-type record codecs",W+"records.rs"),("name codec with pointer following",W+"name.rs"),("section loops driven by header counts",W+"message.rs")],
observe=["Message::decode_from_bytes","Message::encode_to_bytes"])
p("C02","Any byte string is decoded or rejected, never worse",
"Decoding a message from arbitrary bytes always ends, with either the message the bytes denote or an error, and never crashes or hangs the caller. Bytes that do not follow the format (data ends early, pointers that loop or leave the message, names or labels that are too long or contain illegal characters, record data whose length field disagrees with its content) are rejected, never turned into some other message.",
["inputs"],"all byte strings of up to 65535 bytes (bounded: mutations, truncations and splices of valid messages, crafted pointer graphs and length fields)",
NOT+"malformed wire input is never tried; it needs the whole input space.",
[W+"message.rs",W+"name.rs",W+"records.rs",W+"header.rs","src/shared/buffer/buffer.rs"],
[("end-of-data checks",W+"utils.rs"),("jump limit and label mask",W+"name.rs"),("data length comparison",W+"records.rs")],
observe=["Message::decode_from_bytes","Header::decode_from_bytes"])
p("C03","UDP replies are cut at 512 bytes and say so; TCP replies are whole",
"A reply sent over UDP has at most 512 bytes and consists of the leading questions and records of the full reply, whole and in order, with matching section counts, and its truncation flag is set exactly when something was left out. Over TCP the reply is preceded by its exact two-byte length and is complete, or, if it cannot fit in 65535 bytes, is cut and flagged in the same way.",
["inputs"],"all replies (answer, authority and additional sections of any size, crossing the 512 and 65535 byte limits at every offset)",
NOT+"no reply is ever produced by a test; the cut position depends on every record length.",
[W+"message.rs","src/shared/net/udp_server.rs","src/shared/net/tcp_server.rs","src/shared/buffer/buffer.rs"],
[("truncating encoder",W+"message.rs"),("UDP and TCP reply writers","src/shared/net/")],
observe=["bytes on the UDP socket","bytes on the TCP stream","Message::encode_to_bytes_trunc"])
p("C04","The bit buffer is a bit sequence with two cursors",
"The buffer under the codec behaves as a sequence of bits with a read and a write cursor: a read of n bits or bytes returns exactly the bits after the read cursor and advances it, or fails without any effect if fewer remain; a write replaces or appends exactly the given bits at the write cursor and nothing else. Truncation keeps exactly the leading bits and pulls back cursors that lie beyond, and moving a cursor changes nothing but the cursor.",
["histories","inputs"],"all finite sequences of buffer operations with all arguments (exhaustive to a depth over small arguments, random beyond)",
"The 11 tests run eleven fixed operation sequences; the claim is about all interleavings of reads, writes, seeks and truncations at every bit alignment.",
["src/shared/buffer/buffer.rs"],[("bit shifting and masking","src/shared/buffer/buffer.rs")],
state=[dict(name="bits, read cursor, write cursor",meaning="the abstract buffer",where="src/shared/buffer/buffer.rs")],observe=["BitsBuf public methods"])
p("C05","Names compare by whole labels, ignoring case",
"Two domain names are the same exactly if their labels agree ignoring ASCII letter case, and a name belongs to a zone exactly if the zone's labels are the last labels of the name (so everything belongs to the root, and badexample.com does not belong to example.com). This holds wherever names are compared: finding zones, delegations and records in the name server, and cache entries, aliases, referrals and glue in the resolver.",
["inputs"],"all pairs of legal names, in every letter case, and all lookups made with them",
NOT+"name comparison is not tested; look-alike suffixes and case variants are a product space.",
[W+"name.rs","src/nameserver/handler.rs",Z+"parser.rs",B+"requests.rs",B+"utils.rs",B+"recursive.rs"],
[("label-wise zone test",W+"name.rs"),("referral filters",B+"requests.rs"),("name-keyed maps",Z+"parser.rs")],
observe=["Name comparison API","name server replies","resolver queries and answers"])
p("N01","Every readable request gets exactly one well-formed matching reply",
"For every datagram or TCP message whose header can be decoded, name server and resolver send exactly one reply to the sender, and none if the header cannot be decoded; this stays true after any history of earlier requests, however malformed, of clients that leave or stall (once the read timeout has passed), and of passing failures of socket calls. The reply is a well-formed message with the response flag set, the request's id, opcode and recursion-desired flag, zero reserved bits, recursion-available as the server offers it, and, for a well-formed single-question request, that question.",
["inputs","histories"],"all byte strings and all sequences of them sent to either server over either transport",
NOT+"no request is ever handled by a test; one bad packet must not affect later ones, which needs histories.",
["src/nameserver/handler.rs","src/resolver/handler.rs","src/shared/net/udp_server.rs","src/shared/net/tcp_server.rs","src/shared/thread_pool.rs",W+"header.rs",W+"message.rs"],
[("reply header built from request header","src/nameserver/handler.rs, src/resolver/handler.rs"),("reply consumes the writer","src/shared/net/traits.rs"),("worker pool survives a failing job","src/shared/thread_pool.rs")],
observe=["UDP and TCP sockets of both servers"])
p("N02","Unusable requests are refused with the right error code",
"A request that is syntactically broken, is itself a response, carries answer or authority records, or does not carry exactly one question gets FORMERR; one asking for a known but unsupported operation, class or type gets NOTIMP (types and classes unknown altogether get either); a name outside the served zone gets REFUSED. A proper request is never refused with FORMERR, NOTIMP or REFUSED.",
["inputs"],"all request messages, to name server and resolver",
NOT+"error paths of the handlers are never executed.",
["src/nameserver/handler.rs","src/resolver/handler.rs",W+"errors.rs",W+"types.rs",W+"class.rs",W+"header.rs"],
[("request validation","src/nameserver/handler.rs, src/resolver/handler.rs"),("decode error classification","handle_decode_err in both handlers")],
observe=["UDP and TCP sockets of both servers"])
p("N03","Authoritative answers are exactly what the zone holds",
"For a name inside the served zone and outside its sub zones the name server answers authoritatively: with all and only the records of the requested name and type if there are any, otherwise with the name's CNAME record, otherwise with an empty answer accompanied by the zone's SOA record, as NXDOMAIN if the name owns no records. Records carry the data and TTL given in the zone file.",
["inputs","configurations"],"all zones and all questions for names in them",
NOT+"the name server's answer logic is never executed by a test.",
["src/nameserver/handler.rs",Z+"parser.rs"],[("exact-match lookup, CNAME fallback, negative answer","src/nameserver/handler.rs"),("record store",Z+"parser.rs")],
state=[dict(name="served zone records",meaning="records by owner and type",where=Z+"parser.rs")],observe=["UDP and TCP sockets of the name server"])
p("N04","Names in sub zones are delegated, completely and never answered",
"For a name at or below a configured sub zone the name server replies, not authoritatively, with no answers, with all and only that sub zone's NS records, and with every address the sub zone files hold for those servers (glue, also when it comes from another sub zone's file). Names that merely end in the same characters as a sub zone are not delegated.",
["inputs","configurations"],"all zones with disjoint sub zones and all questions",
NOT+"delegation is never executed by a test.",
["src/nameserver/handler.rs",Z+"parser.rs",W+"name.rs"],[("sub zone scan and glue collection","src/nameserver/handler.rs")],
observe=["UDP and TCP sockets of the name server"])
p("N05","A zone is served exactly as its files say",
"Loading a zone file yields exactly the records its text denotes: relative names, @ and blank owners resolved against the current origin, omitted TTLs taken from the previous record, origin changes, included files with their own origin and TTL that leave the including file's state alone, parentheses, comments, quoted strings and escapes. Text that does not follow the syntax, or that places names outside the zone or TTLs below the zone minimum, is refused with an error, and loading never crashes or hangs.",
["inputs"],"all zone file texts (exhaustive over short character sequences, generated files beyond)",
NOT+"the tokenizer and the parser are never executed by a test.",
[Z+"tokens.rs",Z+"parser_auth.rs",Z+"parser_sub.rs",Z+"utils.rs",Z+"errors.rs",W+"utils.rs"],
[("tokenizer",Z+"tokens.rs"),("entry parser with origin/TTL state",Z+"parser_auth.rs"),("sub zone parser",Z+"parser_sub.rs")],
state=[dict(name="origin, last TTL, minimum TTL, multi-line flag",meaning="state of the parser",where=Z+"parser_auth.rs, "+Z+"tokens.rs")],
observe=["parse_zone_files and the records it returns"])
p("N06","Inconsistent zones are never served, consistent ones always",
"A zone is accepted only if it starts with a SOA record at its top node, has NS records, all at its top node, and holds no record inside a sub zone; a sub zone only if it holds nothing but NS records at its top node (at least one) and addresses of name servers mentioned by some sub zone, with addresses present for every mentioned server that lies in a sub zone. Every zone meeting these conditions is accepted.",
["configurations","inputs"],"all combinations of an authoritative zone and its sub zones (exhaustive over a small universe of records)",
NOT+"validation is never executed by a test; the rules span several files.",
[Z+"parser.rs",Z+"parser_auth.rs",Z+"parser_sub.rs",Z+"errors.rs"],[("validate auth zone and sub zones",Z+"parser.rs"),("SOA-first rule",Z+"parser_auth.rs")],
observe=["parse_zone_files result"])
p("R01","The resolver returns what the DNS hierarchy holds",
"If the zones from the root down to the searched name are consistent and their servers respond with complete (untruncated) replies, a lookup returns exactly the records of that name and type, preceded by the aliases leading to it, and NXDOMAIN exactly if the final name does not exist; data that is not there is never made up. The outcome is the same whatever earlier lookups have put in the cache and whatever part of it has expired since.",
["inputs","histories","configurations"],"all consistent zone trees (in-zone, sibling and glueless name servers), all questions, all sequences of lookups and clock advances",
NOT+"the resolver is never executed by a test; warm-cache behaviour depends on the history of lookups and expiries.",
[B+"recursive.rs",B+"requests.rs",B+"utils.rs",B+"cache.rs","src/resolver/handler.rs"],
[("iterative descent with sub-lookups",B+"recursive.rs"),("response classification",B+"requests.rs"),("closest cached name servers",B+"recursive.rs")],
state=[dict(name="record cache",meaning="records learned so far with expiry",where=B+"cache.rs"),dict(name="lookup frame",meaning="searched name, candidate servers, aliases, zones being resolved",where=B+"recursive.rs")],
observe=["datagrams to port 53 (intercepted)","lookup results","resolver replies"])
p("R02","Every lookup ends after a bounded number of upstream queries",
"Whatever name servers reply - alias loops, name server loops, referrals that lead nowhere closer, endless chains of name servers without addresses, large referrals - a lookup ends, with an answer or a failure, after a number of upstream queries bounded by a fixed limit. Following a referral always brings it strictly closer to the searched name, and it never crashes.",
["inputs","fault_sequences"],"all behaviours of upstream servers",
NOT+"no upstream behaviour is ever simulated; adversarial replies form an infinite space.",
[B+"recursive.rs",B+"requests.rs",B+"utils.rs"],[("alias and zone loop detection",B+"utils.rs"),("referral filters",B+"requests.rs"),("redirection and sub-lookup limits",B+"recursive.rs")],
observe=["datagrams to port 53 (intercepted)","lookup results"])
p("R03","A server only influences names in the zones entrusted to it",
"Records for a name are cached, put in an answer or used to choose which server to ask only if they came from a server of a zone that contains that name, a zone it was reached for by an unbroken chain of referrals from the root. A malicious server of one zone can therefore never change what is answered for names outside it, by any combination of answers, aliases, referrals and additional records.",
["inputs","histories","fault_sequences"],"all upstream replies by servers of compromised zones, all later lookups",
NOT+"cache poisoning needs adversarial replies and a later lookup.",
[B+"requests.rs",B+"recursive.rs",B+"utils.rs"],[("record filters",B+"requests.rs"),("what is saved in the cache",B+"recursive.rs")],
state=[dict(name="record cache",meaning="what was learned",where=B+"cache.rs")],observe=["cache content through its public API","answers","datagrams to port 53"])
p("R04","Nothing is served from the cache beyond its lifetime",
"A record learned from a name server is never returned from the cache once its TTL, counted from when its reply was received and processed, has run out; until then it is returned with a TTL no larger than the time left. Using a cached record, also concurrently, never prolongs its life.",
["histories","schedules"],"all sequences of lookups, replies and clock advances, and interleavings of concurrent lookups",
NOT+"cache and clock are never exercised by a test.",
[B+"cache.rs",B+"recursive.rs"],[("expiry instant stored with the entry",B+"cache.rs"),("TTL adjustment on read",B+"recursive.rs")],
state=[dict(name="cache entry expiry",meaning="instant after which it must not be used",where=B+"cache.rs")],observe=["lookup results under a controlled clock","cache content"])
p("R05","One working server is enough, within the configured limits",
"A step of a lookup succeeds if at least one of the offered name servers it is allowed to ask (as many as configured, those whose address is known first) replies properly to one of the allowed attempts, whatever the others do: stay silent, reply with garbage, with an error code or with another id, or have a name that cannot be resolved. No server is sent the same question more often than the configured number of attempts, and no step asks more servers than configured.",
["fault_sequences","configurations"],"all assignments of faults to servers and attempts, all limits",
NOT+"failures of upstream servers are never simulated.",
[B+"recursive.rs",B+"requests.rs"],[("server iteration with error capture",B+"recursive.rs"),("retry loop",B+"requests.rs")],observe=["datagrams to port 53 (intercepted)","lookup results"])
p("R06","Aliases are followed to the end, in order, or the lookup fails",
"When the searched name is an alias, the answer lists the alias records in the order they were followed and then the records of the final name, whether the pieces came from the cache or from servers. A chain with fewer aliases than the configured maximum is followed completely; a longer or circular one makes the lookup fail instead of yielding a partial or endless answer.",
["inputs","histories"],"all alias chains and loops over any zones, from cold and warm caches",
NOT+"no alias is ever followed by a test.",
[B+"recursive.rs",B+"utils.rs",B+"requests.rs"],[("alias handling and loop detection",B+"recursive.rs, "+B+"utils.rs")],observe=["lookup results"])
p("R07","Only a reply to the query just sent is believed",
"A datagram received from upstream influences a lookup (its result, the cache, or the choice of servers) only if it decodes as a DNS message and carries the id of the query to which it is taken as the reply. Any other datagram counts as a failed attempt and nothing else.",
["inputs","fault_sequences"],"all datagrams received in place of, or before, the proper reply",
NOT+"no datagram is ever received by a test.",
[B+"requests.rs"],[("id comparison",B+"requests.rs")],observe=["datagrams (intercepted)","cache content","lookup results"])
p("R08","Concurrent lookups do not disturb each other",
"Lookups that run at the same time and share the cache return what each would return alone, for every interleaving of their steps, cache accesses, expiries and cache cleaning. No interleaving makes one of them crash, hang, or return or cache records of another name.",
["schedules"],"all interleavings of concurrent lookups at their network and clock accesses",
NOT+"nothing concurrent is tested.",
[B+"cache.rs",B+"recursive.rs","src/resolver/handler.rs"],[("mutex around the cache",B+"cache.rs"),("copies instead of references",B+"cache.rs")],observe=["lookup results under a controlled scheduler","cache content"])
p("R09","A truncated upstream reply is never remembered as complete",
"Records taken from an upstream reply that is marked as truncated are not served from the cache to later lookups: a later lookup asks again. Complete replies, in contrast, are remembered for their TTL and answered without asking upstream again.",
["inputs","histories"],"all upstream replies, truncated or not, followed by further lookups",
NOT+"no reply is ever received by a test.",
[B+"recursive.rs",B+"requests.rs"],[("saving answers and referrals",B+"recursive.rs")],observe=["datagrams to port 53 (intercepted)","cache content"])
p("K01","The shared cache behaves as one atomic expiring map",
"Under any number of threads, every operation on the cache (store, fetch, run on entry, remove, clean) appears to take effect at one instant between its call and its return, on a single map from keys to values with expiry. Expired entries are never returned by any operation and live entries are never lost except by an overwrite or a removal; cleaning removes every expired entry and no other.",
["schedules","histories"],"all interleavings of operations of several threads and all clock advances; all sequential histories to a depth",
NOT+"the cache is never exercised by a test, let alone concurrently.",
[B+"cache.rs"],[("single mutex per cache",B+"cache.rs"),("expiry check on every read",B+"cache.rs")],
state=[dict(name="map",meaning="key to (expiry, value)",where=B+"cache.rs")],observe=["Cache public methods"])
p("T01","The worker pool runs every job exactly once and never shrinks",
"Every job handed to a worker pool of n threads is run exactly once, jobs are started in the order in which they were handed over, and up to n jobs run at the same time. A job that fails takes no worker with it, and shutting the pool down waits until all jobs handed over before have been run.",
["schedules","fault_sequences"],"all numbers of workers and jobs, all schedules, all subsets of failing jobs",
NOT+"the pool is never exercised by a test.",
["src/shared/thread_pool.rs"],[("shared queue behind a mutex","src/shared/thread_pool.rs"),("stop messages queued behind the jobs","src/shared/thread_pool.rs")],
state=[dict(name="queue, busy workers",meaning="jobs not yet started; jobs running",where="src/shared/thread_pool.rs")],observe=["ThreadPool public methods"])
p("T02","The two transports live and die together",
"As long as both the UDP and the TCP server run, both accept requests concurrently; if one of them cannot start or stops, the other is stopped too and the server run ends by returning to its caller within a few seconds. This holds for every order in which the two come up, fail and are told to stop.",
["schedules","fault_sequences"],"all interleavings of start-up, bind failure and shutdown of the two servers",
NOT+"no server is ever started by a test.",
["src/shared/net/setup.rs","src/shared/net/udp_server.rs","src/shared/net/tcp_server.rs"],[("stop flag and wake-up messages","src/shared/net/setup.rs")],
state=[dict(name="stop flag, server phases",meaning="binding, serving, stopped",where="src/shared/net/")],observe=["return of start_servers","sockets"])
p("F01","A bad configuration is refused, any other is what the program does",
"Both programs refuse, with an error, a configuration file that is unreadable, incomplete or carries a value with which the server could not work: an invalid address, zero threads, a zero timeout (which would make every request on that transport or every upstream query fail), a zero resolver or cache limit, or an invalid zone name. Every other configuration is accepted with the values written in the file, and the running program behaves as they say: it listens on the configured address and port of each transport, works on as many requests at a time as threads are configured, gives up on slow clients and silent upstream servers after the configured times, gives records without a lifetime of their own the configured one, asks as many servers as often and follows as many aliases as configured, and prints log lines and lookup traces as configured (without colours when they are off).",
["configurations"],"all configurations (exhaustive over a valid and the invalid values of every field, singly and in pairs)",
NOT+"configuration loading is never executed by a test.",
["src/nameserver/conf.rs","src/resolver/conf.rs","src/bin/nameserver.rs","src/bin/resolver.rs","src/shared/net/tcp_server.rs","src/shared/net/udp_server.rs","src/resolver/back_end/trace.rs"],[("validation","src/nameserver/conf.rs, src/resolver/conf.rs"),("use of the values","src/bin/nameserver.rs, src/bin/resolver.rs, src/shared/net")],observe=["Conf::from_file","the programs run with the configuration, over their sockets and output"])
p("L01","The lookup trace tells what happened, and only observes",
"With tracing on, the trace of a lookup reports, in order, every server queried with the name it was asked for and whether a reply or a failure came back, and every cache hit, including those of nested lookups; with tracing off it is empty. Tracing settings never change the outcome of a lookup or the queries it makes.",
["inputs","histories","configurations"],"all lookups under all tracing settings",
NOT+"tracing is never executed by a test.",
[B+"trace.rs",B+"recursive.rs",B+"requests.rs"],[("trace calls around cache and network accesses",B+"recursive.rs"),("nested traces",B+"trace.rs")],observe=["the trace returned with the lookup result"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,x['title']
