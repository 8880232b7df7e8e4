"""Writes MANIFEST.json for the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+ wire-format specification: TLC-generated messages replayed, recorded encodings/decodings validated by TLC",
         "TLC checks on all small messages that the specified decoding inverts the specified encoding; the same messages, and large random ones, are run through the real codec and judged by the specification. Bounded by the generated messages."),
 "C02": ("TLA+ wire-format specification deciding every recorded decoding (exhaustive short encodings, systematic damage)",
         "The specification says for each byte string whether it must be accepted, may be, or must be refused, and with what meaning. Exhaustive over short names, systematic single-byte damage, random damage beyond."),
 "C04": ("TLA+ state machine of the bit buffer: all behaviours to a depth replayed, long recorded histories validated",
         "All operation sequences to depth 3 (4) over boundary arguments plus random sequences, also on buffers around 2^16 bits and bytes; every result, cursor, length and the final bytes are compared."),
 "C05": ("TLA+ definition of name equality and zone membership judging recorded comparisons, exhaustive over small names",
         "All pairs of names to depth 3 over a look-alike alphabet, mutated random pairs, questions to the name server in any case, and resolver histories in which every name of every reply is spelled in a case of its own."),
 "C03": ("TLA+ specification of cut replies judging what the real UDP and TCP servers send for prepared messages",
         "Full sizes and entry boundaries swept around 512 and 65535 octets in every section, random messages, and the name server's own large answers."),
 "N01": ("TLA+ specification of requests and replies judging every recorded exchange with the running servers",
         "Sweeps over header bytes, counts, types, classes, truncations, damaged names; random histories over UDP and TCP with a proper query after every request; bursts to several workers; clients that leave, reset or stall and failing calls of the server in between."),
 "N02": ("TLA+ classification of requests deciding the allowed result codes of every recorded exchange",
         "The same requests as N01; the specification classifies the bytes of each request independently of the implementation."),
 "N03": ("TLA+ specification of a zone's answers: TLC-generated zones and all questions replayed, random zones judged",
         "All combinations of record groups with all questions over a universe of look-alike names, and random large zones, also over the sockets."),
 "N04": ("TLA+ specification of delegation: TLC-generated zones and all questions replayed, random zones judged",
         "As N03, for the names at or below a sub zone."),
 "N06": ("TLA+ definition of consistent zones: all zones within a distance of consistent ones are generated by TLC, loaded and compared",
         "All zones that differ in at most 3 (thorough: 4) of 38 records from two consistent zones, and random consistent ones."),
 "N05": ("TLA+ specification of what zone file texts denote: TLC-generated texts (entries, tokens, characters) loaded and judged, random texts judged",
         "All sequences of up to 2 (thorough: 3) entries of a pool, tokens and special characters up to 3 (4) in several contexts, include and sub zone files, random files with damage; TLC also checks that the specification's includes are transparent."),
 "R01": ("TLA+ state machine of an iterative resolver: TLC-generated hierarchies and question sequences, and random ones, replayed into the real resolver over a simulated network and clock; every recorded event is judged by the specification",
         "The specification computes from the hierarchy what the outcome has to be. All choices of name server placement, nesting, aliases and lifetimes within a distance, all question pairs with pauses; random larger hierarchies (up to 12 levels, 9 servers, 25 records) and longer histories."),
 "R02": ("TLA+ state machine of an iterative resolver judging recorded histories with adversarial servers (generated moves, families of endless work)",
         "The specification bounds the queries of a lookup and requires every referral followed to lead closer; families of hostile servers, all single (thorough: pairs of) generated moves, random moves, alias circles."),
 "R03": ("TLA+ state machine of an iterative resolver with the records it may trust: TLC-generated sequences of malicious moves replayed, each recorded event judged",
         "The specification tracks which server may influence which names; every query, answer and later lookup is checked against it. All move sequences to depth 2 (thorough: 3) over 42 kinds of malicious replies, random replies beyond."),
 "R04": ("TLA+ state machine of an iterative resolver with the expiry of every record learned, judging recorded histories under a simulated clock",
         "Generated question sequences with pauses, random histories with lifetimes from 0 to 2^32-1, interleaved lookups."),
 "R05": ("TLA+ model of servers' behaviours: TLC enumerates the failures of every server at every level, replayed; the specification decides which lookups have to succeed and counts attempts and servers",
         "All pairs of 21 kinds of servers (silent, garbage, error codes, other ids, recovering, to be looked up elsewhere, unresolvable in five ways) with attempt counts and limits, triples over fewer kinds, two (three) levels."),
 "R06": ("TLA+ state machine of an iterative resolver judging recorded lookups of alias chains and circles, from cold and warm caches",
         "Random chains of all lengths around the limit across random hierarchies, with pieces cached and expired; generated hierarchies with aliases."),
 "R07": ("TLA+ state machine of an iterative resolver that learns nothing from datagrams that are no reply to the query just sent, judging recorded histories with forged datagrams",
         "Forged ids, swapped and neighbouring ids, cut, malformed and mis-counted messages carrying what an impostor would plant."),
 "R08": ("TLA+ state machine of an iterative resolver with several concurrent lookups, judging histories recorded under a controlled scheduler",
         "Random schedules at all network and clock accesses of 2 to 4 lookups sharing a cache, with cache cleaning and clock advances."),
 "R09": ("TLA+ state machine of an iterative resolver marking what came from truncated replies, judging recorded histories",
         "Random truncation of replies followed by repeated lookups; complete replies must not be asked for again."),
 "K01": ("TLA+ specification of an expiring map: TLC-generated sequential histories replayed, concurrent histories recorded under a scheduler (and free-running) checked by TLC for linearizability",
         "All sequential histories to depth 4 (5) over two keys and three lifetimes, random interleavings of up to 4 threads at every hash, comparison, clone and clock access, free-running threads, bulk histories of many thousand keys, the cleaning routine."),
 "T01": ("TLA+ model of the pool (safety and liveness by TLC); TLC-generated scripts of blocking, ending and failing jobs replayed, recorded runs validated",
         "All scripts to 5 (6) steps for 1 to 3 workers and hours passing while workers are idle, with the set of running jobs predicted after every step; random runs with several submitters and meeting jobs; floods of 20000 (200000) waiting jobs."),
 "T02": ("TLA+ model of the two servers' life cycle (safety and liveness by TLC); TLC-generated scenarios of failures and delays run against the real servers with interposed calls, outcomes judged",
         "All combinations of failing or delayed binding, failing thread creation, a port held by an unresponsive program, requests in progress, addresses; real time and sockets."),
 "F01": ("TLA+ specification of valid configurations: TLC-generated configurations loaded and judged; TLA+ specification of what a configuration makes the programs do, judging the two real programs run with TLC-generated configurations",
         "All configurations one value away from a valid one and pairs of proper, improper and missing values (thorough: all pairs), damaged files, random ones; the programs run as processes with every configuration one (two) values away: addresses, ports, threads, time limits, lifetimes, resolver limits, log and trace options, refusals."),
 "L01": ("TLA+ state machine of an iterative resolver relating a lookup's trace to the events seen on the network, and pairs of runs that differ in tracing only",
         "Random histories with failing servers, all tracing settings."),
}
T.update(json.load(open(os.path.join(V, "tools", "techniques.json"))) if os.path.exists(os.path.join(V, "tools", "techniques.json")) else {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is still under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
