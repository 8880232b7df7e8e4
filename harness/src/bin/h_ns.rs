//! N01-N04, N06, C03: the name server.
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::net::*;
use harness::conv::*;
use harness::gen;
use harness::out::*;
use harness::reqs;
use harness::serve::*;
use harness::srv::*;
use harness::wire::*;
use harness::zonefile::*;
use harness::*;
use rand::prelude::*;
use serde_json::{json, Value};
use std::io::Write;
use std::sync::{Arc, Mutex};

fn lines(p: &str) -> Vec<Value> {
    std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}

/// N06: load every generated zone.
fn run_load(o: &Out, file: &str) {
    for v in lines(file) {
        let z: ZoneDef = serde_json::from_value(v["z"].clone()).unwrap();
        o.case(json!({"z": z}), || json!({"ok": true, "acc": load(&z, "zones", 0).is_some()}));
    }
}

struct ZonesOut(std::fs::File, usize);
impl ZonesOut {
    fn add(&mut self, z: &ZoneDef) -> usize {
        let mut s = serde_json::to_vec(z).unwrap();
        s.push(b'\n');
        self.0.write_all(&s).unwrap();
        self.1 += 1;
        self.1
    }
}

fn ns_case(o: &Out, zi: usize, h: &NameserverHandler, b: &[u8]) {
    o.case(json!({"z": zi, "b": b}), || json!({"ok": true, "rs": ask(h, b)}));
}

/// N03, N04: all questions to all generated zones.
fn run_ans(o: &Out, file: &str, zo: &mut ZonesOut) {
    for v in lines(file) {
        let z: ZoneDef = serde_json::from_value(v["z"].clone()).unwrap();
        let zi = zo.add(&z);
        match load(&z, "zones", 0) {
            None => {
                o.case(json!({"z": zi, "b": []}), || json!({"ok": false, "why": "consistent zone not loaded"}));
            }
            Some(mz) => {
                let h = NameserverHandler(mz);
                for q in v["qs"].as_array().unwrap() {
                    let n: Nm = serde_json::from_value(q["n"].clone()).unwrap();
                    let b = query((zi * 31 % 65536) as u16, &n, q["t"].as_u64().unwrap() as u16);
                    ns_case(o, zi, &h, &b);
                }
            }
        }
    }
}

fn rl(g: &mut gen::R) -> Label {
    if g.gen_bool(0.8) {
        g_pool(g)
    } else {
        let n = g.gen_range(1..12);
        gen::label(g, n)
    }
}

fn g_pool(g: &mut gen::R) -> Label {
    [&b"a"[..], b"b", b"www", b"WWW", b"ns", b"ns1", b"mail", b"x-1", b"sub", b"xsub", b"1"].choose(g).unwrap().to_vec()
}

fn under(l: Label, z: &Nm) -> Nm {
    let mut n = vec![l];
    n.extend(z.clone());
    n
}

fn some_name(g: &mut gen::R, z: &Nm) -> Nm {
    let mut n = z.clone();
    for _ in 0..*[0, 1, 1, 1, 2, 2, 3].choose(g).unwrap() {
        n = under(rl(g), &n);
    }
    reqs::case(g, &n)
}

/// A random consistent zone with all record types.
pub fn rnd_zone(g: &mut gen::R, zone: Nm, size: usize) -> ZoneDef {
    let nsub = g.gen_range(0..4);
    let mut subz: Vec<Nm> = vec![];
    for _ in 0..nsub {
        let mut n = zone.clone();
        if !subz.is_empty() && g.gen_bool(0.3) {
            n = subz.choose(g).unwrap().clone();
        }
        for _ in 0..g.gen_range(1..3) {
            n = under(rl(g), &n);
        }
        if !subz.iter().any(|s| lower(s) == lower(&n)) {
            subz.push(n);
        }
    }
    let ttl = |g: &mut gen::R| g.gen_range(60..200000u32);
    let mut recs = vec![];
    let mut soa = gen::rr_of(g, 6);
    soa.n = reqs::case(g, &zone);
    soa.ttl = ttl(g).to_be_bytes();
    soa.d.by[0][16..20].copy_from_slice(&g.gen_range(0..=60u32).to_be_bytes());
    recs.push(soa);
    let n_ns = if size > 100 { g.gen_range(1..20) } else { g.gen_range(1..4) };
    for i in 0..n_ns {
        let mut r = gen::rr_of(g, 2);
        r.n = reqs::case(g, &zone);
        r.d.nm[0] = if g.gen() { some_name(g, &zone) } else { under(format!("ns{}", i).into_bytes(), &zone) };
        r.ttl = ttl(g).to_be_bytes();
        recs.push(r);
    }
    let mut k = 0;
    while k < size {
        let n = some_name(g, &zone);
        if subz.iter().any(|s| in_zone(&n, s)) {
            k += 1;
            continue;
        }
        let t = *[1u16, 1, 1, 5, 11, 12, 13, 15, 16].choose(g).unwrap();
        for _ in 0..*[1, 1, 1, 2, 3, if size > 100 { 40 } else { 2 }].choose(g).unwrap() {
            let mut r = gen::rr_of(g, t);
            r.n = n.clone();
            r.ttl = ttl(g).to_be_bytes();
            r.d.nu.truncate(if t == 11 { 0 } else { 9 });
            if t == 11 {
                r.d.by[1] = vec![if g.gen() { 6 } else { 17 }];
            }
            if t == 13 || t == 16 {
                for s in r.d.by.iter_mut() {
                    s.retain(|c| *c >= 32 && *c < 127);
                }
            }
            recs.push(r);
            k += 1;
        }
    }
    let mut subs: Vec<SubZ> = subz.iter().map(|z| SubZ { zone: z.clone(), recs: vec![] }).collect();
    let mut mentioned: Vec<Nm> = vec![];
    for i in 0..subs.len() {
        for j in 0..if size > 100 { g.gen_range(1..14) } else { g.gen_range(1..5) } {
            let t = match g.gen_range(0..4) {
                0 => some_name(g, &nm("other")),
                1 => some_name(g, &zone),
                2 => some_name(g, &subz[i]),
                _ => {
                    let s = subz.choose(g).unwrap().clone();
                    let l = format!("ns{}", j).into_bytes();
                    let n = under(l, &s);
                    reqs::case(g, &n)
                }
            };
            let mut r = gen::rr_of(g, 2);
            r.n = reqs::case(g, &subz[i]);
            r.ttl = ttl(g).to_be_bytes();
            r.d.nm[0] = t.clone();
            subs[i].recs.push(r);
            if !mentioned.contains(&lower(&t)) {
                mentioned.push(lower(&t));
            }
        }
    }
    for m in &mentioned {
        for s in subs.iter_mut() {
            if in_zone(m, &s.zone) {
                for _ in 0..g.gen_range(1..4) {
                    let mut r = gen::rr_of(g, 1);
                    r.n = reqs::case(g, m);
                    r.ttl = ttl(g).to_be_bytes();
                    let p = g.gen_range(0..=s.recs.len());
                    s.recs.insert(p, r);
                }
            }
        }
    }
    ZoneDef { zone, recs, subs }
}

pub fn names_of(g: &mut gen::R, z: &ZoneDef) -> Vec<Nm> {
    let mut v: Vec<Nm> = vec![];
    for r in z.recs.iter().chain(z.subs.iter().flat_map(|s| s.recs.iter())) {
        v.push(r.n.clone());
        if g.gen_bool(0.3) {
            v.extend(r.d.nm.clone());
        }
    }
    let k = v.len();
    for i in 0..k {
        if g.gen_bool(0.3) {
            let n = v[i].clone();
            v.push(under(rl(g), &n));
            if !n.is_empty() {
                v.push(n[1..].to_vec());
                let mut m = n.clone();
                m[0].insert(0, b'x');
                v.push(m);
                if n.len() > 1 {
                    // labels merged: the same characters, another name
                    let mut m = n[1..].to_vec();
                    m[0] = [n[0].clone(), n[1].clone()].concat();
                    v.push(m);
                }
            }
        }
    }
    for s in &z.subs {
        for l in ["a", "www.b"] {
            let mut n = nm(l);
            n.extend(s.zone.clone());
            v.push(n);
        }
        let mut m = s.zone.clone();
        m[0].insert(0, b'x');
        v.push(m);
    }
    v.push(vec![]);
    v.push(nm("example.org"));
    v.push(z.zone.clone());
    let mut m = z.zone.clone();
    if !m.is_empty() {
        m[0].insert(0, b'b');
        v.push(m);
        v.push(z.zone[1..].to_vec());
    }
    v.retain(|n| n.iter().map(|l| l.len() + 1).sum::<usize>() < 255 && n.iter().all(|l| l.len() <= 63));
    v
}

const ZONES: [&str; 6] = ["example.com", "z", "", "a.b.c.d.e", "COM", "xn--1.test"];

/// N03, N04: random zones, asked directly and over UDP and TCP.
fn run_ansrnd(o: &Out, seed: u64, n: usize, zo: &mut ZonesOut) {
    let mut g = gen::rng(seed, 11);
    for i in 0..n {
        let zone = nm(ZONES[i % ZONES.len()]);
        let size = if i % 5 == 0 { 150 } else { g.gen_range(0..40) };
        let z = rnd_zone(&mut g, zone, size);
        let zi = zo.add(&z);
        let names = names_of(&mut g, &z);
        match load(&z, "zones", 0) {
            None => {
                o.case(json!({"z": zi, "b": []}), || json!({"ok": false, "why": "consistent zone not loaded"}));
            }
            Some(mz) => {
                let h = Arc::new(NameserverHandler(mz));
                for _ in 0..120 {
                    let n = names.choose(&mut g).unwrap().clone();
                    let n = reqs::case(&mut g, &n);
                    let b = query(g.gen(), &n, *[1u16, 1, 2, 5, 6, 11, 12, 13, 15, 16].choose(&mut g).unwrap());
                    ns_case(o, zi, &h, &b);
                }
                let probe = query(1, &z.zone, 6);
                let s = Server::start(h, 1, 1, &probe);
                let mut c = Sock::new(&s, &z.zone);
                for k in 0..30 {
                    let n = names.choose(&mut g).unwrap().clone();
                    let n = reqs::case(&mut g, &n);
                    let b = query(g.gen(), &n, *[1u16, 1, 2, 5, 6, 12, 13, 15, 16].choose(&mut g).unwrap());
                    if k % 3 == 0 {
                        tcp_case(o, zi, &s, &b, &[]);
                    } else {
                        c.udp_case(o, zi, &b);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ calls that fail
static FAULTS: Faults = Faults { accept: Fault::new(), recv: Fault::new(), dup: Fault::new() };

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: libc::c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t, fl: libc::c_int) -> libc::c_int {
    if let Some(e) = FAULTS.accept.hit() {
        *libc::__errno_location() = e;
        return -1;
    }
    libc::syscall(libc::SYS_accept4, fd, a, l, fl) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: libc::c_int, b: *mut libc::c_void, n: usize, fl: libc::c_int, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> isize {
    if !a.is_null() {
        if let Some(e) = FAULTS.recv.hit() {
            *libc::__errno_location() = e;
            return -1;
        }
    }
    libc::syscall(libc::SYS_recvfrom, fd, b, n, fl, a, l) as isize
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: libc::c_int, cmd: libc::c_int, x: libc::c_long) -> libc::c_int {
    if cmd == libc::F_DUPFD_CLOEXEC {
        if let Some(e) = FAULTS.dup.hit() {
            *libc::__errno_location() = e;
            return -1;
        }
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, x) as libc::c_int
}

/// N01, N02: one server, a long history of requests of every kind.
fn run_serve(o: &Out, seed: u64, n: usize, zo: &mut ZonesOut) {
    let mut g = gen::rng(seed, 12);
    for round in 0..2 {
        let zone = nm(if round == 0 { "example.com" } else { "x" });
        let z = rnd_zone(&mut g, zone.clone(), 60);
        let zi = zo.add(&z);
        let names: Vec<Nm> = names_of(&mut g, &z).into_iter().filter(|n| n.iter().map(|l| l.len() + 1).sum::<usize>() < 100).collect();
        let probe = query(1, &zone, 6);
        let start = |k, ms| Server::start_r(Arc::new(NameserverHandler(load(&z, "zones", 0).expect("zone"))), k, k, &probe, ms);
        history(o, &mut g, zi, n, &zone, &names, round == 0, &start, Some(&FAULTS));
    }
}

/// C03: a handler that replies with a prepared message.
struct Fixed(Mutex<Option<ariadne_dns::shared::dns::Message>>);
impl DnsHandler for Fixed {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, resp: W) {
        let _ = req.read();
        let m = self.0.lock().unwrap().take();
        if let Some(m) = m {
            let _ = resp.reply(m);
        } else {
            // the probe at the start
            let _ = resp.reply(msg_from(&Msg { h: Hd { qr: 1, ..Default::default() }, ..Default::default() }));
        }
    }
}

fn raw_rr(t: &str, n: usize) -> Rr {
    // a TXT record whose encoding has exactly n octets: owner (len+2 for one label) + 10 + data
    let owner = t.len() + 2;
    let mut left = n - owner - 10;
    let mut by = vec![];
    while left > 0 {
        let l = left.min(256);
        by.push(vec![b'x'; l - 1]);
        left -= l;
    }
    Rr::new(t, 16, 60, RData { by, ..Default::default() })
}

fn cut_case(o: &Out, s: &Server, h: &Fixed, m: &Msg, tcp: bool) {
    let dm = msg_from(m);
    let full = dm.encode_to_bytes().unwrap().len();
    let q = query(5, &nm("probe"), 1);
    o.case(json!({"k": if tcp { "tcp" } else { "udp" }, "m": m, "full": full}), || {
        *h.0.lock().unwrap() = Some(dm);
        if tcp {
            match s.tcp(&q, &[]) {
                Some(raw) => json!({"ok": true, "raw": raw}),
                None => json!({"ok": false, "why": "connection"}),
            }
        } else {
            let c = s.client();
            c.send(&q).unwrap();
            let mut got = None;
            let (_, ok) = collect(&c, 5000, |d| {
                got = Some(d.to_vec());
                true
            });
            if !ok {
                return json!({"ok": false, "why": "no reply"});
            }
            // a second datagram would be a reply cut in two
            let (more, _) = collect(&c, 1, |_| false);
            if !more.is_empty() {
                return json!({"ok": false, "why": "several datagrams"});
            }
            json!({"ok": true, "raw": got.unwrap()})
        }
    });
}

fn run_cut(o: &Out, seed: u64, n: usize) {
    let mut g = gen::rng(seed, 13);
    let h = Arc::new(Fixed(Mutex::new(None)));
    let s = Server::start(h.clone(), 2, 2, &query(1, &nm("probe"), 1));
    std::thread::sleep(std::time::Duration::from_millis(50));
    let place = |m: &mut Msg, sec: usize, r: Rr| match sec {
        0 => m.an.push(r),
        1 => m.ns.push(r),
        _ => m.ar.push(r),
    };
    // complete sizes and boundaries around 512, cut in each section
    for total in 500..=530usize {
        for sec in 0..3 {
            let mut m = Msg::default();
            m.h.id = g.gen();
            m.h.qr = 1;
            m.h.rc = g.gen_range(0..6);
            m.h.aa = g.gen_range(0..2);
            m.h.z = g.gen_range(0..8);
            m.q.push(Qu { n: nm("q"), t: 16, c: 1 }); // 12 + 3 + 4 = 19
            for k in 0..sec {
                place(&mut m, k, Rr::a("a", 5, [1, 2, 3, k as u8])); // 17 each
            }
            let used = 19 + 17 * sec;
            place(&mut m, sec, raw_rr("t", total - used));
            m.fix_counts();
            cut_case(o, &s, &h, &m, false);
            // the same with something behind it
            for after in [sec, 2] {
                let mut m2 = m.clone();
                place(&mut m2, after, Rr::a("b", 5, [9, 9, 9, 9]));
                m2.fix_counts();
                cut_case(o, &s, &h, &m2, false);
            }
            // last record ends on the boundary, in two pieces
            let mut m3 = m.clone();
            match sec {
                0 => m3.an.clear(),
                1 => m3.ns.clear(),
                _ => m3.ar.clear(),
            }
            place(&mut m3, sec, raw_rr("u", 200));
            place(&mut m3, sec, raw_rr("v", total - used - 200));
            place(&mut m3, 2, Rr::a("w", 5, [9, 9, 9, 9]));
            m3.fix_counts();
            cut_case(o, &s, &h, &m3, false);
            if total % 10 == 0 {
                cut_case(o, &s, &h, &m3, true);
            }
        }
    }
    // questions alone can be too much
    for k in [1usize, 2, 30, 71, 72, 80] {
        let mut m = Msg::default();
        m.h.qr = 1;
        m.q = vec![Qu { n: nm("q"), t: 16, c: 1 }; k];
        m.an.push(Rr::a("a", 5, [1, 2, 3, 4]));
        m.fix_counts();
        cut_case(o, &s, &h, &m, false);
        cut_case(o, &s, &h, &m, true);
    }
    // random replies
    for i in 0..n {
        let mut m = gen::msg(&mut g);
        m.h.qr = 1;
        m.h.tc = 0;
        for r in m.an.iter_mut().chain(m.ns.iter_mut()).chain(m.ar.iter_mut()) {
            if r.t == 11 {
                r.d.nu = vec![1, 25];
            }
        }
        let k = g.gen_range(0..14);
        for _ in 0..k {
            let r = Rr::a("h.example.com", 60, g.gen());
            let sec = g.gen_range(0..3);
            place(&mut m, sec, r);
        }
        m.fix_counts();
        cut_case(o, &s, &h, &m, i % 4 == 0);
    }
    // around 65535 octets, over TCP
    for total in [65000usize, 65533, 65534, 65535, 65536, 65537, 70000, 131070, 131072] {
        for sec in [0usize, 2] {
            let mut m = Msg::default();
            m.h.qr = 1;
            m.q.push(Qu { n: nm("q"), t: 16, c: 1 });
            let mut left = total - 19;
            while left > 40000 {
                place(&mut m, sec, raw_rr("t", 30000));
                left -= 30000;
            }
            place(&mut m, sec, raw_rr("t", left));
            if sec == 0 {
                place(&mut m, 2, Rr::a("a", 5, [1, 2, 3, 4]));
            }
            m.fix_counts();
            cut_case(o, &s, &h, &m, true);
        }
    }
}

/// C03 with the real handler: large answers, requests with all kinds of flags.
fn run_cutns(o: &Out, seed: u64, n: usize) {
    let mut g = gen::rng(seed, 14);
    for i in 0..n {
        let z = rnd_zone(&mut g, nm("example.com"), 250);
        let names = names_of(&mut g, &z);
        let h = Arc::new(NameserverHandler(load(&z, "zones", 0).expect("zone")));
        let s = Server::start(h.clone(), 1, 1, &query(1, &z.zone, 6));
        for k in 0..60 {
            let n = names.choose(&mut g).unwrap().clone();
            let mut m = Msg::default();
            m.h.id = g.gen();
            m.h.rd = g.gen_range(0..2);
            if k % 3 == 0 {
                m.h.tc = 1;
            }
            if k % 4 == 0 {
                m.h.aa = 1;
                m.h.ra = 1;
                m.h.z = g.gen_range(0..8);
            }
            m.q.push(Qu { n: reqs::case(&mut g, &n), t: *[1u16, 1, 2, 2, 5, 6, 12, 13, 15, 16].choose(&mut g).unwrap(), c: 1 });
            m.fix_counts();
            let b = encode(&m, Compress::No);
            let full = match ask_msg(&*h, &b) {
                Some(m) => m,
                None => continue,
            };
            let mut fm = msg_to(&full);
            fm.h.tc = 0;
            let size = full.encode_to_bytes().unwrap().len();
            let tcp = (i + k) % 2 == 0;
            o.case(json!({"k": if tcp { "tcp" } else { "udp" }, "m": fm, "full": size}), || {
                if tcp {
                    match s.tcp(&b, &[]) {
                        Some(raw) => json!({"ok": true, "raw": raw}),
                        None => json!({"ok": false, "why": "connection"}),
                    }
                } else {
                    let c = s.client();
                    c.send(&b).unwrap();
                    let mut got = None;
                    let (_, ok) = collect(&c, 5000, |d| {
                        got = Some(d.to_vec());
                        true
                    });
                    if !ok {
                        return json!({"ok": false, "why": "no reply"});
                    }
                    json!({"ok": true, "raw": got.unwrap()})
                }
            });
        }
    }
}

fn main() {
    init();
    let o = Out::new(&arg(2), 20000);
    match arg(1).as_str() {
        "load" => run_load(&o, &arg(3)),
        "cutns" => run_cutns(&o, seed(), num(3)),
        "cut" => run_cut(&o, seed(), num(3)),
        c => {
            let mut zo = ZonesOut(std::fs::File::create(format!("{}.zones", arg(2))).unwrap(), 0);
            match c {
                "ans" => run_ans(&o, &arg(3), &mut zo),
                "ansrnd" => run_ansrnd(&o, seed(), num(3), &mut zo),
                "serve" => run_serve(&o, seed(), num(3), &mut zo),
                c => panic!("unknown command {}", c),
            }
        }
    }
    o.finish();
}
