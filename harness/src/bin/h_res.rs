//! Drives the real resolver in a simulated internet and records what it does: one history
//! (any number of lookups sharing a cache, with the clock moving) per line.
#[path = "../sim.rs"]
#[allow(dead_code)]
mod sim;
use ariadne_dns::resolver::*;
use harness::out::Out;
use harness::wire::*;
use harness::world::*;
use harness::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conf {
    ns: usize,
    retries: usize,
    cname: usize,
    rt: u64,
    strict: bool,
}
fn usual() -> Conf {
    Conf { ns: 3, retries: 2, cname: 5, rt: 500, strict: false }
}

const SILENT: TraceParams = TraceParams { verbose: false, silent: true, color: false };

struct Out2 {
    o: Out,
    w: std::fs::File,
    nw: usize,
    seen: HashMap<Vec<u8>, usize>,
}
impl Out2 {
    fn new() -> Out2 {
        Out2 { o: Out::new(&arg(2), 60_000), w: std::fs::File::create(format!("{}.worlds", arg(2))).unwrap(), nw: 0, seen: HashMap::new() }
    }
    fn world(&mut self, w: &World) -> usize {
        let mut b = serde_json::to_vec(w).unwrap();
        if let Some(k) = self.seen.get(&b) {
            return *k;
        }
        self.nw += 1;
        self.seen.insert(b.clone(), self.nw);
        b.push(b'\n');
        self.w.write_all(&b).unwrap();
        self.nw
    }
    fn finish(mut self) {
        self.world(&World::default());
        self.o.finish();
    }
}

/// One history: the lookups made by f, in a fresh cache.
struct Hist {
    cache: Arc<RecordsCache>,
    conf: Conf,
    tr: TraceParams,
    l: u32,
}

fn params(c: &Conf) -> ResolverParams {
    ResolverParams {
        max_ns_queried: c.ns,
        max_upd_retries: c.retries,
        max_cname_redir: c.cname,
        read_timeout: Duration::from_millis(c.rt),
        write_timeout: Duration::from_millis(c.rt),
        no_follow_cname: false,
    }
}

static DIRECT: AtomicBool = AtomicBool::new(false);

/// Whether the question can be put into a request.
fn askable(n: &Nm, t: u16) -> bool {
    [1, 2, 5, 6, 11, 12, 13, 15, 16].contains(&t) && n.iter().map(|l| l.len() + 1).sum::<usize>() < 255
}

/// The outcome of a lookup made for a client of the resolver, as the reply tells it.
fn by_handler(rs: Resolver, id: u16, n: &Nm, t: u16) -> Value {
    let rep = srv::ask_msg(&ResolverHandler(rs), &srv::query(id, n, t));
    let f = |v: &Vec<ariadne_dns::shared::dns::Record>| v.iter().map(conv::rr_to).collect::<Vec<_>>();
    let none: Vec<Rr> = vec![];
    match rep.map(|m| (conv::hd_to(&m.header).rc, m)) {
        Some((0, m)) => json!({"ok": "ok", "an": f(&m.answers), "ns": f(&m.authorities), "ar": f(&m.additionals), "nx": false, "trace": [], "empty": true}),
        Some((3, m)) => json!({"ok": "ok", "an": f(&m.answers), "ns": f(&m.authorities), "ar": f(&m.additionals), "nx": true, "trace": [], "empty": true}),
        Some((2, _)) => json!({"ok": "err", "an": none, "ns": none, "ar": none, "nx": false, "trace": [], "empty": true}),
        _ => json!({"ok": "panic", "an": none, "ns": none, "ar": none, "nx": false, "trace": [], "empty": true}),
    }
}

fn one(cache: &Arc<RecordsCache>, conf: &Conf, tr: TraceParams, l: u32, n: &Nm, t: u16, truth: bool) -> Value {
    sim::set_lookup(l);
    sim::event(json!({"k": "start", "l": l, "n": n, "t": t, "at": sim::now_ms(), "truth": truth}));
    let name = conv::name_from(n);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let silent = tr.silent;
        let rs = Resolver::new(cache, params(conf), tr);
        // every other lookup is made for a client
        if silent && !DIRECT.load(SeqCst) && (l as usize + n.len() + t as usize) % 2 == 0 && askable(n, t) {
            return by_handler(rs, l as u16, n, t);
        }
        let (r, trace) = rs.new_lookup(&name, conv::rtype(t)).perform();
        let items = trace_items(&format!("{}", trace));
        let empty = trace.is_empty();
        match r {
            Ok(x) => {
                let f = |v: &Vec<ariadne_dns::shared::dns::Record>| v.iter().map(conv::rr_to).collect::<Vec<_>>();
                json!({"ok": "ok", "an": f(&x.0), "ns": f(&x.1), "ar": f(&x.2), "nx": x.3, "trace": items, "empty": empty})
            }
            Err(_) => json!({"ok": "err", "an": [], "ns": [], "ar": [], "nx": false, "trace": items, "empty": empty}),
        }
    }));
    let mut v = r.unwrap_or(json!({"ok": "panic", "an": [], "ns": [], "ar": [], "nx": false, "trace": [], "empty": true}));
    v["k"] = json!("end");
    v["l"] = json!(l);
    v["at"] = json!(sim::now_ms());
    sim::event(v.clone());
    v
}

impl Hist {
    fn new(conf: &Conf) -> Hist {
        let cache: Arc<RecordsCache> = Arc::new(RecordsCache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 500 }));
        Hist { cache, conf: conf.clone(), tr: SILENT, l: 0 }
    }
    fn ask(&mut self, n: &Nm, t: u16, truth: bool) -> Value {
        self.l += 1;
        one(&self.cache, &self.conf, self.tr.clone(), self.l, n, t, truth)
    }
}

/// A generous limit on the datagrams of one lookup; the specification has the same.
fn bound(c: &Conf) -> usize {
    4 * (64 + 16 * c.ns * c.cname) * c.retries
}

fn case(o: &Out2, kind: &str, conf: &Conf, w: usize, extra: Value, resp: sim::Responder, lookups: usize, f: impl FnOnce(&mut Hist)) {
    let mut inp = json!({"kind": kind, "conf": conf, "w": w, "lv": [], "pair": []});
    if let Value::Object(m) = extra {
        for (k, v) in m {
            inp[k] = v;
        }
    }
    sim::virtual_time(true);
    sim::begin((bound(conf) + 2) * lookups, resp);
    o.o.case(inp, || {
        let mut h = Hist::new(conf);
        f(&mut h);
        json!({"ok": true, "evs": sim::end()})
    });
    sim::end();
    sim::virtual_time(false);
}

fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn type_num(s: &str) -> u16 {
    match s.trim_matches(|c: char| !c.is_ascii_alphanumeric()) {
        "A" => 1,
        "NS" => 2,
        "CNAME" => 5,
        "SOA" => 6,
        "WKS" => 11,
        "PTR" => 12,
        "HINFO" => 13,
        "MX" => 15,
        "TXT" => 16,
        _ => 0,
    }
}

/// What a trace says, in order: servers asked, replies, failures, cache hits.
fn trace_items(s: &str) -> Vec<Value> {
    let mut v = vec![];
    let s = strip_ansi(s);
    let e: Nm = vec![];
    for l in s.lines() {
        let l = l.trim();
        let q: Vec<&str> = l.split('\'').collect();
        if l.starts_with("Asking '") && q.len() >= 7 {
            v.push(json!({"k": "ask", "n": nm(q[1]), "t": type_num(q[3]), "s": nm(q[5])}));
        } else if l.starts_with("Asking to nameserver failed") {
            v.push(json!({"k": "fail", "n": e, "t": 0, "s": e}));
        } else if ["No domain", "No records of this type", "Answers found", "Alias to canonical name found", "Delegation to sub-zone found"]
            .iter()
            .any(|p| l.starts_with(p))
        {
            v.push(json!({"k": "resp", "n": e, "t": 0, "s": e}));
        } else if l.starts_with("Cache hit for '") && q.len() >= 3 {
            v.push(json!({"k": "hit", "n": nm(q[1]), "t": type_num(q[2].trim_start_matches(" (type ")), "s": e}));
        } else if l.starts_with("Cache hit searching nameservers for '") && q.len() >= 3 {
            v.push(json!({"k": "nshit", "n": nm(q[1]), "t": 0, "s": e}));
        }
    }
    v
}

// ------------------------------------------------------------------ worlds
const TTLS: [u32; 9] = [0, 1, 2, 5, 60, 300, 3600, 86400, 4294967295];

fn host_ip(k: &mut u32) -> [u8; 4] {
    *k += 1;
    [10, (*k >> 16) as u8, (*k >> 8) as u8, *k as u8]
}

/// Put a record in the zone its owner belongs to, unless it clashes with an alias.
fn put(w: &mut World, r: Rr) -> bool {
    let z = w.deepest(&r.n).zone.clone();
    let z = w.zones.iter_mut().find(|x| x.zone == z).unwrap();
    let n = lower(&r.n);
    let here: Vec<&Rr> = z.recs.iter().filter(|x| lower(&x.n) == n).collect();
    let clash = if r.t == 5 { !here.is_empty() } else { here.iter().any(|x| x.t == 5) };
    if clash || z.recs.iter().any(|x| lower(&x.n) == n && x.t == r.t && x.d == r.d) {
        return false;
    }
    let ttl = here.iter().find(|x| x.t == r.t).map(|x| x.ttl);
    let mut r = r;
    if let Some(t) = ttl {
        r.ttl = t;
    }
    z.recs.push(r);
    true
}

fn rnd_ttl(g: &mut gen::R, ttls: &[u32]) -> u32 {
    *ttls.choose(g).unwrap()
}

struct Shape {
    glueless: bool,
    ttls: Vec<u32>,
    hosts: usize,
    aliases: usize,
}

fn rnd_world(g: &mut gen::R, sh: &Shape) -> World {
    let mut w = World { zones: vec![root_zone(86400)], style: g.gen_range(0..256) & g.gen_range(0..256) };
    let mut names: Vec<Nm> = vec![];
    let tlds: Vec<Nm> = ["com", "org", "om"][..g.gen_range(1..=3)].iter().map(|s| nm(s)).collect();
    names.extend(tlds.clone());
    for l in ["a", "b", "ab", "ns"] {
        if g.gen_bool(0.5) {
            names.push(under(l, tlds.choose(g).unwrap()));
        }
    }
    if names.len() > tlds.len() && g.gen_bool(0.6) {
        let p = names[g.gen_range(tlds.len()..names.len())].clone();
        names.push(under(*["x", "a", "www"].choose(g).unwrap(), &p));
    }
    if g.gen_bool(0.2) {
        let p = names.last().unwrap().clone();
        names.push(under("e", &under("d", &p)));
    }
    if g.gen_bool(0.08) {
        // many levels
        let mut p = names.choose(g).unwrap().clone();
        for i in 0..g.gen_range(3..10) {
            p = under(*["e", "d", "sub", "a"].choose(g).unwrap(), &if i % 3 == 2 { under("gap", &p) } else { p });
            names.push(p.clone());
        }
    }
    if g.gen_bool(0.08) {
        // long names
        let mut p = names.choose(g).unwrap().clone();
        while p.iter().map(|l| l.len() + 1).sum::<usize>() < 120 {
            p = under(&"l".repeat(g.gen_range(30..=63)), &p);
        }
        names.push(p);
    }
    names.sort_by_key(|n| (n.len(), n.clone()));
    names.dedup();
    for n in &names {
        w.zones.push(WZone { zone: n.clone(), recs: vec![] });
    }
    let mut ip = 0;
    let mut nshosts: Vec<Nm> = vec![];
    for (i, z) in names.iter().enumerate() {
        let ttl = rnd_ttl(g, &sh.ttls);
        put(&mut w, soa(z.clone(), rnd_ttl(g, &sh.ttls)));
        let k = if g.gen_bool(0.06) { g.gen_range(4..=9) } else { g.gen_range(1..=3) };
        let mut own = false;
        let mut list = vec![];
        for j in 0..k {
            let l = format!("ns{}", j);
            let host = match g.gen_range(0..10) {
                0..=4 => {
                    own = true;
                    under(&l, z)
                }
                5 if !nshosts.is_empty() => nshosts.choose(g).unwrap().clone(), // shared
                6 if z.len() > 1 => under(&format!("n{}{}", i, j), &z[1..].to_vec()),
                7 | 8 if sh.glueless && i > 0 => {
                    let o = if own && g.gen_bool(0.3) { g.gen_range(0..names.len()) } else { g.gen_range(0..i) };
                    under(&format!("n{}{}", i, j), &names[o])
                }
                _ => {
                    own = true;
                    under(&l, z)
                }
            };
            list.push(host);
        }
        list.dedup();
        if list.iter().all(|h| !in_zone(h, z)) && g.gen_bool(0.3) {
            list.push(under("ns9", z));
        }
        for h in list {
            if w.addrs(&h).is_empty() {
                let at = rnd_ttl(g, &sh.ttls);
                for _ in 0..*[1, 1, 1, 1, 1, 1, 2, 2, 5].choose(g).unwrap() {
                    let x = host_ip(&mut ip);
                    put(&mut w, a(h.clone(), at, x));
                }
                nshosts.push(h.clone());
            }
            put(&mut w, ns(z.clone(), ttl, h));
        }
    }
    let labels = ["www", "mail", "a", "b", "x", "host-1", "www1"];
    let mut pool: Vec<Nm> = nshosts.clone();
    for _ in 0..sh.hosts {
        let z = names.choose(g).unwrap();
        let mut n = under(labels.choose(g).unwrap(), z);
        if g.gen_bool(0.15) {
            n = under("deep", &under("mid", &n));
        }
        if g.gen_bool(0.1) {
            n = z.clone();
        }
        let ttl = rnd_ttl(g, &sh.ttls);
        let many = g.gen_bool(0.12);
        let kind = g.gen_range(0..9);
        for j in 0..if many { g.gen_range(3..26) } else { g.gen_range(1..=2) } {
            let r = match if many { kind } else { g.gen_range(0..9) } {
                0 if many => txt(n.clone(), ttl, &format!("t{}", j)),
                0 => txt(n.clone(), ttl, *["t", "two words", ""].choose(g).unwrap()),
                2 => rr(n.clone(), 16, ttl, vec![], (0..g.gen_range(2..5)).map(|x| vec![b'a' + x + j as u8; g.gen_range(0..40)]).collect(), vec![]),
                3 => rr(n.clone(), *[13u16, 12, 11].choose(g).unwrap(), ttl, vec![], vec![], vec![]),
                1 => {
                    let t = pool.choose(g).cloned().unwrap_or(nm("m.com"));
                    mx(n.clone(), ttl, g.gen_range(0..20), t)
                }
                _ => {
                    let x = host_ip(&mut ip);
                    a(n.clone(), ttl, x)
                }
            };
            let r = match r.t {
                11 => rr(r.n, 11, ttl, vec![], vec![vec![1, 2, 3, j as u8], vec![6]], vec![25, 80 + j as u32]),
                12 => rr(r.n, 12, ttl, vec![under(&format!("p{}", j), z)], vec![], vec![]),
                13 => rr(r.n, 13, ttl, vec![], vec![b"cpu".to_vec(), vec![b'o'; j + 1]], vec![]),
                _ => r,
            };
            put(&mut w, r);
        }
        pool.push(n);
    }
    for _ in 0..sh.aliases {
        let z = names.choose(g).unwrap();
        let n = under(*["alias", "c1", "c2", "www", "ftp"].choose(g).unwrap(), z);
        let t = if g.gen_bool(0.8) { pool.choose(g).unwrap().clone() } else { under("nothing", names.choose(g).unwrap()) };
        if nshosts.contains(&n) {
            continue;
        }
        let ttl = rnd_ttl(g, &sh.ttls);
        if put(&mut w, cn(n.clone(), ttl, t)) {
            pool.push(n);
        }
    }
    if g.gen_bool(0.3) {
        // sets whose records have lifetimes of their own
        for z in w.zones.iter_mut().skip(1) {
            for r in z.recs.iter_mut() {
                if r.t != 6 && g.gen_bool(0.4) {
                    r.ttl = rnd_ttl(g, &sh.ttls).to_be_bytes();
                }
            }
        }
    }
    w
}

fn owners(w: &World) -> Vec<(Nm, u16)> {
    let mut v: Vec<(Nm, u16)> = vec![];
    for z in &w.zones {
        for r in &z.recs {
            v.push((r.n.clone(), r.t));
        }
    }
    v
}

fn vary_case(g: &mut gen::R, n: &Nm) -> Nm {
    if g.gen_bool(0.8) {
        return n.clone();
    }
    n.iter().map(|l| l.iter().map(|c| if g.gen() { c.to_ascii_uppercase() } else { *c }).collect()).collect()
}

const QTYPES: [u16; 9] = [1, 2, 5, 6, 15, 16, 12, 11, 13];

fn rnd_question(g: &mut gen::R, w: &World) -> (Nm, u16) {
    let own = owners(w);
    let own: Vec<_> = own.into_iter().filter(|(n, _)| !(n.len() == 3 && n[1] == b"root-servers") && !n.is_empty()).collect();
    let (n, t) = own.choose(g).unwrap().clone();
    match g.gen_range(0..10) {
        0 => (under(*["nope", "www", "a", "b"].choose(g).unwrap(), &n), *QTYPES.choose(g).unwrap()),
        1 => (n[g.gen_range(0..n.len())..].to_vec(), *QTYPES.choose(g).unwrap()),
        2 => (n, *QTYPES.choose(g).unwrap()),
        3 => {
            // an alias
            let al: Vec<_> = own.iter().filter(|x| x.1 == 5).collect();
            match al.choose(g) {
                Some(x) => (x.0.clone(), *[1u16, 1, 1, 15, 16].choose(g).unwrap()),
                None => (n, 1),
            }
        }
        4 | 5 => (n, 1),
        _ => (n, t),
    }
}

/// Small helper: the responder of well-behaved servers.
fn honest(w: &World, seed: u64) -> sim::Responder {
    let w = w.clone();
    let mut g = gen::rng(seed, 77);
    Box::new(move |q| match w.reply(&mut g, q.ip, q.b) {
        Some(b) => sim::Reply::Data(vec![(if g.gen_bool(0.7) { 0 } else { g.gen_range(0..400) }, b)]),
        None => sim::Reply::Data(vec![]),
    })
}

fn step_clock(g: &mut gen::R) {
    match g.gen_range(0..6) {
        0..=1 => {}
        2 => sim::advance_ms(g.gen_range(1..1100)),
        3 => sim::advance_ms(1000 * g.gen_range(1..6)),
        4 => sim::advance_ms(g.gen_range(1000..400_000)),
        _ => sim::advance_ms(g.gen_range(100_000..90_000_000)),
    }
}

fn hist(n: usize, glueless: bool, mixed: bool) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 11);
    for k in 0..n {
        let ttls = if g.gen_bool(0.3) { vec![*TTLS.choose(&mut g).unwrap(), 3600] } else { TTLS.to_vec() };
        let sh = Shape { glueless, ttls, hosts: g.gen_range(1..8), aliases: g.gen_range(0..5) };
        let mut w = rnd_world(&mut g, &sh);
        if mixed {
            w.style |= MIXED;
        }
        let wi = o.world(&w);
        let mut conf = usual();
        conf.retries = g.gen_range(1..=3);
        conf.cname = g.gen_range(1..=6);
        let nl = g.gen_range(2..9);
        let mut qs: Vec<(Nm, u16)> = (0..nl).map(|_| rnd_question(&mut g, &w)).collect();
        if g.gen_bool(0.5) {
            let x = qs[0].clone();
            qs.push(x);
        }
        let resp = honest(&w, seed() * 1000 + k as u64);
        case(&o, "hist", &conf, wi, json!({}), resp, nl + 1, |h| {
            for (n, t) in qs {
                let n = vary_case(&mut g, &n);
                h.ask(&n, t, true);
                step_clock(&mut g);
                if g.gen_bool(0.2) {
                    h.cache.clean();
                }
            }
        });
    }
    o.finish();
}

fn lines(f: &str) -> Vec<Value> {
    std::io::BufReader::new(std::fs::File::open(f).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

include!("../fam.rs");

fn main() {
    init();
    std::env::set_var("NO_COLOR", "1");
    match arg(1).as_str() {
        "hist" => hist(num(3), arg(4) == "glueless", arg(5) == "mixed"),
        "worlds" => worlds(&arg(3)),
        "beh" => beh(&arg(3)),
        "adv" => adv(&arg(3)),
        "advrnd" => advrnd(num(3)),
        "fan" => fan(num(3)),
        "spoof" => spoof(num(3)),
        "tc" => tc(num(3)),
        "chain" => chain(num(3)),
        "conc" => conc(num(3)),
        "pair" => {
            DIRECT.store(true, SeqCst);
            pair(num(3))
        }
        x => panic!("{}", x),
    }
}
