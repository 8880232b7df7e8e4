// The families of histories of h_res.rs (included there).

/// Worlds and lookups enumerated by the specification: {w: World, qs: [[n, t, pause in ms]], conf}.
fn worlds(f: &str) {
    let mut o = Out2::new();
    for (k, v) in lines(f).into_iter().enumerate() {
        let mut w: World = serde_json::from_value(v["w"].clone()).unwrap();
        w.zones[0] = root_zone(86400);
        let conf: Conf = serde_json::from_value(v["conf"].clone()).unwrap();
        let qs: Vec<(Nm, u16, u64)> = serde_json::from_value(v["qs"].clone()).unwrap();
        let wi = o.world(&w);
        let resp = honest(&w, k as u64);
        case(&o, "worlds", &conf, wi, json!({}), resp, qs.len(), |h| {
            for (n, t, p) in qs {
                h.ask(&n, t, true);
                sim::advance_ms(p);
            }
        });
    }
    o.finish();
}

// ------------------------------------------------------------------ servers that fail
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    k: String,
    f: usize,
}

fn fail_reply(w: &World, g: &mut gen::R, kind: &str, ip: [u8; 4], b: &[u8]) -> sim::Reply {
    let (id, q) = match parse_query(b) {
        Some(x) => x,
        None => return sim::Reply::Data(vec![]),
    };
    let good = w.reply(g, ip, b).unwrap_or_default();
    let mut m = Msg::default();
    m.h.qr = 1;
    m.h.id = id;
    m.q.push(q.clone());
    m.fix_counts();
    let one = |b: Vec<u8>| sim::Reply::Data(vec![(0, b)]);
    match kind {
        "silent" => sim::Reply::Data(vec![]),
        "late" => sim::Reply::Data(vec![(100_000, good)]),
        "unreach" => sim::Reply::Errno(libc::ENETUNREACH),
        "refused" => sim::Reply::Errno(libc::ECONNREFUSED),
        "garbage" => one((0..g.gen_range(0..60)).map(|i| if i == 2 { 0x85 } else { 0xc0 | g.gen::<u8>() }).collect()),
        "short" => one(good[..g.gen_range(0..12)].to_vec()),
        "cut" => one(good[..good.len() - 1].to_vec()),
        "wrongid" => {
            let mut x = good;
            let d = 1u16 << g.gen_range(0..16);
            let i = id ^ d;
            x[..2].copy_from_slice(&i.to_be_bytes());
            one(x)
        }
        "servfail" | "formerr" | "notimp" | "refuse" => {
            m.h.rc = match kind {
                "servfail" => 2,
                "formerr" => 1,
                "notimp" => 4,
                _ => 5,
            };
            one(encode(&m, Compress::No))
        }
        "empty" => one(encode(&m, Compress::No)),
        "nxnoaa" => {
            m.h.rc = 3;
            one(encode(&m, Compress::No))
        }
        "up" => {
            // a referral back to the root
            m.ns.push(ns(vec![], 3600, nm("a.root-servers.net")));
            m.ar.push(a(nm("a.root-servers.net"), 3600, [198, 41, 0, 4]));
            m.fix_counts();
            one(encode(&m, Compress::No))
        }
        _ => one(good),
    }
}

/// Levels of servers with the behaviours chosen by the specification: {conf, lv: [[{k, f}]]}.
fn beh(f: &str) {
    let mut o = Out2::new();
    for (k, v) in lines(f).into_iter().enumerate() {
        let lv: Vec<Vec<Act>> = serde_json::from_value(v["lv"].clone()).unwrap();
        let conf: Conf = serde_json::from_value(v["conf"].clone()).unwrap();
        let mut g = gen::rng(seed() * 7919 + k as u64, 5);
        let mut w = World { zones: vec![root_zone(86400), WZone { zone: nm("org"), recs: vec![] }], style: OUT_GLUE * 0 };
        put(&mut w, ns(nm("org"), 3600, nm("ns.org")));
        put(&mut w, a(nm("ns.org"), 3600, [9, 9, 9, 9]));
        put(&mut w, soa(nm("org"), 3600));
        // zones of hosts whose addresses cannot be found
        for (z, h) in [("dead.org", "ns.dead.org"), ("la.org", "ns.lb.org"), ("lb.org", "ns.la.org")] {
            put(&mut w, ns(nm(z), 3600, nm(h)));
        }
        put(&mut w, a(nm("ns.dead.org"), 3600, [9, 9, 9, 1]));
        put(&mut w, a(nm("lost.org"), 3600, [9, 9, 9, 2]));
        let mut z = nm("com");
        let mut by: HashMap<[u8; 4], Act> = HashMap::new();
        for (li, acts) in lv.iter().enumerate() {
            w.zones.push(WZone { zone: z.clone(), recs: vec![] });
            put(&mut w, soa(z.clone(), 3600));
            for (i, x) in acts.iter().enumerate() {
                let h = match x.k.as_str() {
                    "unres" => nm(&format!("gone{}{}.org", li, i)),
                    "undead" => nm(&format!("h{}{}.dead.org", li, i)),
                    "unloop" => nm(&format!("h{}{}.la.org", li, i)),
                    "unnd" | "unal" | "far" => nm(&format!("{}{}{}.org", x.k, li, i)),
                    _ => under(&format!("ns{}", i), &z),
                };
                put(&mut w, ns(z.clone(), 3600, h.clone()));
                match x.k.as_str() {
                    "unres" | "undead" | "unloop" => continue,
                    "unnd" => {
                        put(&mut w, txt(h, 3600, "no address"));
                        continue;
                    }
                    "unal" => {
                        put(&mut w, cn(h, 3600, nm("lost.org")));
                        continue;
                    }
                    _ => {}
                }
                let ip = [20, li as u8, 0, i as u8];
                put(&mut w, a(h, 3600, ip));
                by.insert(ip, x.clone());
            }
            if li + 1 < lv.len() {
                z = under("ex", &z);
            }
        }
        put(&mut w, a(under("www", &z), 3600, [30, 0, 0, 1]));
        let wi = o.world(&w);
        let w2 = w.clone();
        let mut g2 = g.clone();
        let seen: Arc<Mutex<HashMap<([u8; 4], Vec<u8>), usize>>> = Arc::default();
        let s2 = seen.clone();
        let resp: sim::Responder = Box::new(move |q| {
            let act = match by.get(&q.ip) {
                Some(x) => x.clone(),
                None => Act { k: "good".into(), f: 0 },
            };
            let mut s = s2.lock().unwrap();
            let c = s.entry((q.ip, q.b.get(2..).unwrap_or(&[]).to_vec())).or_insert(0);
            *c += 1;
            if *c <= act.f {
                fail_reply(&w2, &mut g2, &act.k, q.ip, q.b)
            } else {
                fail_reply(&w2, &mut g2, "good", q.ip, q.b)
            }
        });
        let name = under("www", &z);
        case(&o, "beh", &conf, wi, json!({"lv": lv}), resp, 2, |h| {
            h.ask(&name, 1, true);
            if g.gen_bool(0.3) {
                // again, with the name servers cached and the answer not
                sim::advance_ms(10);
                seen.lock().unwrap().clear();
                let _ = h.cache.remove(&(conv::name_from(&name), conv::rtype(1)));
                sim::event(json!({"k": "drop", "l": 0, "n": name, "t": 1, "at": sim::now_ms()}));
                h.ask(&name, 1, true);
            }
        });
    }
    o.finish();
}

// ------------------------------------------------------------------ malicious servers
fn adv_world(g: &mut gen::R, wide: bool) -> World {
    let mut w = World { zones: vec![root_zone(86400)], style: g.gen_range(0..256) & g.gen_range(0..256) };
    for z in ["com", "org", "victim.com", "notevil.com", "evil.com", "evil2.org"] {
        w.zones.push(WZone { zone: nm(z), recs: vec![] });
    }
    let t = 3600;
    for (z, h, ip) in [
        ("com", "ns.com", [10, 0, 0, 1]),
        ("com", "b.org", [10, 0, 0, 2]),
        ("org", "b.org", [10, 0, 0, 2]),
        ("victim.com", "ns.victim.com", [10, 0, 1, 1]),
        ("victim.com", "ns2.notevil.com", [10, 0, 1, 2]),
        ("notevil.com", "ns.notevil.com", [10, 0, 2, 1]),
        ("evil.com", "ns.evil.com", [66, 6, 6, 6]),
        ("evil2.org", "ns.evil2.org", [66, 6, 6, 6]),
    ] {
        put(&mut w, ns(nm(z), t, nm(h)));
        put(&mut w, a(nm(h), t, ip));
    }
    for z in ["com", "org", "victim.com", "notevil.com"] {
        put(&mut w, soa(nm(z), t));
    }
    put(&mut w, a(nm("www.victim.com"), 60, [10, 9, 0, 1]));
    put(&mut w, mx(nm("victim.com"), 60, 5, nm("www.victim.com")));
    put(&mut w, txt(nm("www.victim.com"), 60, "v"));
    put(&mut w, cn(nm("al.victim.com"), 60, nm("www.notevil.com")));
    put(&mut w, a(nm("www.notevil.com"), 60, [10, 9, 0, 2]));
    if wide {
        put(&mut w, cn(nm("out.victim.com"), 60, nm("x.evil.com")));
    }
    w
}

const VICTIMS: [(&str, u16); 14] = [
    ("www.victim.com", 1),
    ("victim.com", 2),
    ("ns.victim.com", 1),
    ("www.notevil.com", 1),
    ("al.victim.com", 1),
    ("com", 2),
    ("nx.victim.com", 1),
    ("victim.com", 15),
    ("ns2.notevil.com", 1),
    ("www.victim.com", 16),
    (".", 2),
    ("ns.com", 1),
    ("notevil.com", 2),
    ("evil.com.victim.com", 1),
];

const MAL: usize = 42;

/// The reply of kind k of the servers of evil.com and evil2.org.
fn mal(k: usize, w: &World, g: &mut gen::R, ip: [u8; 4], b: &[u8], ctr: &mut usize) -> sim::Reply {
    let (id, q) = match parse_query(b) {
        Some(x) => x,
        None => return sim::Reply::Data(vec![]),
    };
    let n = q.n.clone();
    let e = nm(if in_zone(&n, &nm("evil2.org")) { "evil2.org" } else { "evil.com" });
    let nse = under("ns", &e);
    let bad = [66, 6, 6, 7];
    let t = 3600;
    let mut m = Msg::default();
    m.h.qr = 1;
    m.h.aa = 1;
    m.h.id = id;
    m.q.push(q.clone());
    let v = nm("www.victim.com");
    let vz = nm("victim.com");
    let nsv = nm("ns.victim.com");
    let plain = |m: &mut Msg| match q.t {
        1 => m.an.push(a(n.clone(), t, [66, 6, 6, 9])),
        2 => m.an.push(ns(n.clone(), t, nse.clone())),
        _ => m.an.push(txt(n.clone(), t, "x")),
    };
    let refer = |m: &mut Msg, z: &Nm, h: &Nm, ip: [u8; 4]| {
        m.h.aa = 0;
        m.ns.push(ns(z.clone(), t, h.clone()));
        m.ar.push(a(h.clone(), t, ip));
    };
    let evip = [66, 6, 6, 6];
    match k {
        0 => plain(&mut m),
        1 => {
            plain(&mut m);
            m.ar.push(a(v, t, bad));
            m.ar.push(a(nsv, t, bad));
        }
        2 => {
            plain(&mut m);
            m.an.push(a(v, t, bad));
        }
        3 => {
            m.an.push(cn(n, t, v.clone()));
            m.an.push(a(v, t, bad));
        }
        4 => {
            m.an.push(cn(n, t, v.clone()));
            m.ns.push(ns(vz, t, nse.clone()));
            m.ar.push(a(nse, t, evip));
        }
        5 => {
            m.an.push(cn(n, t, v));
            m.ns.push(ns(vec![], t, nse.clone()));
            m.ar.push(a(nse, t, evip));
        }
        6 => refer(&mut m, &nm("com"), &nse, evip),
        7 => refer(&mut m, &vz, &nse, evip),
        8 => refer(&mut m, &vec![], &nse, evip),
        9 => {
            *ctr += 1;
            refer(&mut m, &e, &under(&format!("ns{}", ctr), &e), [66, 6, 6, (6 + *ctr % 3) as u8])
        }
        10 => refer(&mut m, &n, &nsv, bad),
        11 => refer(&mut m, &n, &under("ns", &n), [66, 6, 6, 8]),
        12 => {
            m.h.rc = 3;
            m.ns.push(soa(vz, t));
        }
        13 => {
            m.h.rc = 3;
            m.h.aa = 0;
        }
        14 => {
            refer(&mut m, &n, &nse, evip);
            m.ns.push(ns(vz, t, nse.clone()));
            m.ns.push(ns(nm("com"), t, nse));
        }
        15 => refer(&mut m, &nm("notevil.com"), &nse, evip),
        16 => {
            m.an.push(ns(e.clone(), t, nsv.clone()));
            m.an.push(ns(vz, t, nse));
            m.ar.push(a(nsv, t, bad));
        }
        17 => {
            m.h.aa = 0;
            *ctr += 1;
            let other = nm(if e == nm("evil.com") { "evil2.org" } else { "evil.com" });
            m.ns.push(ns(n, t, under(&format!("g{}", ctr), &other)));
        }
        18 => {
            m.ns.push(soa(n, t));
            m.ns.push(ns(vz, t, nse.clone()));
            m.ar.push(a(nse, t, evip));
        }
        19 => refer(&mut m, &n, &vec![], evip),
        20 => {
            for _ in 0..3 {
                plain(&mut m);
            }
            for r in m.an.iter_mut() {
                r.ttl = [255; 4];
            }
            if let Some(r) = m.an.last_mut() {
                r.ttl = [0, 0, 0, 1];
            }
        }
        21 => {
            plain(&mut m);
            m.ar.push(a(v, t, bad));
            m.h.tc = 1;
        }
        22 => {
            m.an.push(cn(n, t, v));
            m.ns.push(ns(vz, t, nse.clone()));
            m.ar.push(a(nse, t, evip));
            m.h.tc = 1;
        }
        23 => {
            refer(&mut m, &n, &under("ns", &n), [66, 6, 6, 8]);
            m.h.tc = 1;
        }
        24 => m.an.push(cn(n.clone(), t, n)),
        25 => {
            *ctr += 1;
            m.an.push(cn(n, t, under(&format!("c{}", ctr), &e)));
        }
        26 => {
            m.h.rc = 2;
            plain(&mut m);
            m.ar.push(a(v, t, bad));
        }
        27 => m.h.aa = 0,
        28 => {
            m.an.push(cn(n, t, v.clone()));
            m.an.push(cn(v, t, nse));
            m.h.rc = 3;
        }
        29 | 30 => {
            m.an.push(a(n.clone(), t, bad));
            m.an.push(a(v, t, bad));
            m.h.id ^= 0x0100;
            m.fix_counts();
            let mut ds = vec![(0, encode(&m, Compress::No))];
            if k == 30 {
                let mut m2 = Msg::default();
                m2.h = m.h.clone();
                m2.h.id = id;
                m2.q = m.q.clone();
                plain(&mut m2);
                m2.fix_counts();
                ds.push((1, encode(&m2, Compress::No)));
            }
            return sim::Reply::Data(ds);
        }
        31 => return fail_reply(w, g, "garbage", ip, b),
        32 => {
            m.an.push(a(v, t, bad));
            m.fix_counts();
            let mut x = encode(&m, Compress::All);
            x.truncate(x.len() - 2);
            return sim::Reply::Data(vec![(0, x)]);
        }
        33 => {
            m.h.qr = 0;
            m.an.push(a(v, t, bad));
        }
        34 => {
            m.q[0].n = v.clone();
            m.an.push(a(v, t, bad));
        }
        35 => {
            plain(&mut m);
            m.an.push(cn(nm("com"), t, e.clone()));
            m.an.push(cn(vz, t, e));
        }
        36 => {
            refer(&mut m, &n, &nsv, bad);
            m.ns.push(ns(n.clone(), t, nm("ns.notevil.com")));
            m.ar.push(a(nm("ns.notevil.com"), t, bad));
        }
        37 => {
            m.h.aa = 0;
            m.ns.push(ns(n.clone(), t, v.clone()));
            m.ns.push(ns(n, t, nm("b.org")));
            m.ar.push(a(nm("b.org"), t, bad));
        }
        38 => m.ns.push(soa(vz, t)),
        39 => {
            let x = nm("www.notevil.com");
            m.an.push(cn(n, t, x.clone()));
            m.ns.push(ns(nm("notevil.com"), t, nse.clone()));
            m.ar.push(a(nse, t, evip));
            m.ar.push(a(x, t, bad));
        }
        40 => {
            m.an.push(cn(n, t, nm("nx.victim.com")));
            m.ns.push(ns(nm("com"), t, nse.clone()));
            m.ar.push(a(nse, t, evip));
        }
        _ => {
            // answers for everything, whatever is asked
            m.an.push(a(v, t, bad));
            m.an.push(ns(nm("com"), t, nse.clone()));
            m.ns.push(ns(vec![], t, nse.clone()));
            m.ar.push(a(nm("a.root-servers.net"), t, bad));
            m.ar.push(a(nm("ns.com"), t, bad));
            m.ar.push(a(nse, t, evip));
        }
    }
    m.fix_counts();
    sim::Reply::Data(vec![(0, encode(&m, if g.gen() { Compress::All } else { Compress::No }))])
}

fn rnd_mal(g: &mut gen::R, b: &[u8]) -> sim::Reply {
    let (id, q) = match parse_query(b) {
        Some(x) => x,
        None => return sim::Reply::Data(vec![]),
    };
    let mut m = Msg::default();
    m.h.qr = 1;
    m.h.id = id;
    m.h.aa = g.gen_range(0..2);
    m.h.tc = g.gen_bool(0.1) as u8;
    m.h.rc = *[0, 0, 0, 0, 0, 0, 3, 2].choose(g).unwrap();
    m.q.push(q.clone());
    let mut pool: Vec<Nm> = [
        "", "com", "org", "victim.com", "www.victim.com", "ns.victim.com", "notevil.com", "ns.notevil.com", "ns2.notevil.com", "www.notevil.com",
        "evil.com", "ns.evil.com", "x.evil.com", "evil2.org", "ns.evil2.org", "y.evil2.org", "ns.com", "b.org", "a.root-servers.net", "al.victim.com",
    ]
    .iter()
    .map(|s| nm(s))
    .collect();
    for _ in 0..8 {
        pool.push(q.n.clone());
    }
    for k in 0..q.n.len() {
        pool.push(q.n[k..].to_vec());
        pool.push(under("ns", &q.n[k..].to_vec()));
    }
    let ips: [[u8; 4]; 5] = [[66, 6, 6, 6], [66, 6, 6, 7], [66, 6, 6, 8], [10, 0, 1, 1], [127, 0, 0, 1]];
    for s in 0..3 {
        for _ in 0..*[0, 1, 1, 2, 3].choose(g).unwrap() {
            let n = pool.choose(g).unwrap().clone();
            let n2 = pool.choose(g).unwrap().clone();
            let ttl = *[0, 1, 30, 3600, 86400].choose(g).unwrap();
            let ip = *ips.choose(g).unwrap();
            let r = match (s, g.gen_range(0..8)) {
                (0, 0..=2) => a(n, ttl, ip),
                (0, 3..=5) => cn(n, ttl, n2),
                (0, 6) => ns(n, ttl, n2),
                (1, 0..=6) => ns(n, ttl, n2),
                (1, _) => soa(n, ttl),
                (2, 0..=6) => a(n, ttl, ip),
                (_, 7) if g.gen() => mx(n, ttl, 1, n2),
                _ => txt(n, ttl, "q"),
            };
            match s {
                0 => m.an.push(r),
                1 => m.ns.push(r),
                _ => m.ar.push(r),
            }
        }
    }
    m.fix_counts();
    let mut bts = encode(&m, if g.gen() { Compress::All } else { Compress::No });
    if bts.len() > 512 {
        bts = encode(&m, Compress::All);
    }
    sim::Reply::Data(vec![(if g.gen_bool(0.9) { 0 } else { 1500 }, bts)])
}

const LURES: [(&str, u16); 6] = [("x.evil.com", 1), ("evil.com", 2), ("a.b.evil2.org", 1), ("ns.evil.com", 1), ("www.victim.com.evil.com", 1), ("x.evil.com", 16)];

fn is_evil(ip: [u8; 4]) -> bool {
    ip[0] == 66
}

fn adv_case(o: &mut Out2, g: &mut gen::R, kind: &str, moves: Vec<(usize, usize)>, nv: usize) {
    let w = adv_world(g, moves.len() > 2);
    let wi = o.world(&w);
    let mut conf = usual();
    conf.retries = 1;
    conf.cname = *[2, 4].choose(g).unwrap();
    conf.ns = *[2, 3].choose(g).unwrap();
    let cur = Arc::new(Mutex::new(0usize));
    let (c2, w2) = (cur.clone(), w.clone());
    let mut g2 = gen::rng(g.gen(), 1);
    let mut ctr = 0;
    let resp: sim::Responder = Box::new(move |q| {
        if is_evil(q.ip) {
            let k = *c2.lock().unwrap();
            if k >= 1000 {
                return rnd_mal(&mut g2, q.b);
            }
            return mal(k, &w2, &mut g2, q.ip, q.b, &mut ctr);
        }
        match w2.reply(&mut g2, q.ip, q.b) {
            Some(b) => sim::Reply::Data(vec![(0, b)]),
            None => sim::Reply::Data(vec![]),
        }
    });
    let mut vs: Vec<usize> = (0..VICTIMS.len()).collect();
    vs.shuffle(g);
    case(o, kind, &conf, wi, json!({}), resp, moves.len() + nv + 1, |h| {
        if g.gen_bool(0.4) {
            let (n, t) = VICTIMS[vs[nv]];
            h.ask(&nm(n), t, true);
        }
        for (m, q) in &moves {
            *cur.lock().unwrap() = *m;
            let (n, t) = LURES[*q % LURES.len()];
            h.ask(&nm(n), t, false);
            if g.gen_bool(0.2) {
                step_clock(g);
            }
        }
        for v in &vs[..nv] {
            let (n, t) = VICTIMS[*v];
            h.ask(&nm(n), t, true);
        }
    });
}

/// Sequences of moves chosen by the specification: {m: [[kind, lure]]}.
fn adv(f: &str) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 13);
    for v in lines(f) {
        let ms: Vec<(usize, usize)> = serde_json::from_value(v["m"].clone()).unwrap();
        assert!(ms.iter().all(|m| m.0 < MAL));
        adv_case(&mut o, &mut g, "adv", ms, 4);
    }
    o.finish();
}

fn advrnd(n: usize) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 14);
    for _ in 0..n {
        let k = g.gen_range(1..5);
        let ms = (0..k).map(|_| (if g.gen_bool(0.8) { 1000 } else { g.gen_range(0..MAL) }, g.gen_range(0..6))).collect();
        adv_case(&mut o, &mut g, "adv", ms, 4);
    }
    o.finish();
}

// ------------------------------------------------------------------ endless work
fn fan(n: usize) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 15);
    for k in 0..n {
        let mut w = World { zones: vec![root_zone(86400), WZone { zone: nm("bad"), recs: vec![] }, WZone { zone: nm("mal"), recs: vec![] }], style: 0 };
        for z in ["bad", "mal"] {
            put(&mut w, ns(nm(z), 3600, under("ns", &nm(z))));
            put(&mut w, a(under("ns", &nm(z)), 3600, [66, 6, 6, if z == "bad" { 6 } else { 5 }]));
        }
        let conf = Conf { ns: g.gen_range(1..=4), retries: g.gen_range(1..=2), cname: g.gen_range(1..=3), rt: 300, strict: false };
        let wi = o.world(&w);
        let w2 = w.clone();
        let mut g2 = gen::rng(seed() * 100 + k as u64, 2);
        let style = k % 9;
        let width = g.gen_range(1..=6);
        let mut ctr = 0usize;
        let resp: sim::Responder = Box::new(move |q| {
            if !is_evil(q.ip) {
                return match w2.reply(&mut g2, q.ip, q.b) {
                    Some(b) => sim::Reply::Data(vec![(0, b)]),
                    None => sim::Reply::Data(vec![]),
                };
            }
            let (id, qu) = match parse_query(q.b) {
                Some(x) => x,
                None => return sim::Reply::Data(vec![]),
            };
            let mut m = Msg::default();
            m.h.qr = 1;
            m.h.id = id;
            m.q.push(qu.clone());
            let z = nm(if in_zone(&qu.n, &nm("mal")) { "mal" } else { "bad" });
            let oz = nm(if z == nm("mal") { "bad" } else { "mal" });
            // the zone one label below the name's top-level zone
            let sub = qu.n[qu.n.len().saturating_sub(2)..].to_vec();
            match style {
                // every zone has name servers without addresses in ever new zones
                0 | 1 => {
                    for _ in 0..width {
                        ctr += 1;
                        let x = if style == 0 { z.clone() } else { oz.clone() };
                        m.ns.push(ns(sub.clone(), 3600, under("n", &under(&format!("z{}", ctr), &x))));
                    }
                }
                // ... always the same ones, in a circle
                2 => {
                    for i in 0..width {
                        m.ns.push(ns(sub.clone(), 3600, under("n", &under(&format!("z{}", i), &oz))));
                    }
                }
                // endless aliases
                3 => {
                    ctr += 1;
                    m.an.push(cn(qu.n.clone(), 3600, under(&format!("c{}", ctr), &z)));
                    m.h.aa = 1;
                }
                // sideways
                4 => {
                    ctr += 1;
                    let h = under(&format!("s{}", ctr), &z);
                    m.ns.push(ns(z.clone(), 3600, h.clone()));
                    m.ar.push(a(h, 3600, [66, 6, 7, ctr as u8]));
                }
                // as many servers as fit, all useless
                5 => {
                    for i in 0..25u8 {
                        let h = vec![vec![b'a' + i], z[0].clone()];
                        m.ns.push(ns(sub.clone(), 3600, h.clone()));
                        if i < 10 {
                            m.ar.push(a(h, 3600, [66, 6, 8, i]));
                        }
                    }
                    if q.ip[2] == 8 {
                        return sim::Reply::Data(vec![]);
                    }
                }
                // aliases of name server names, alternating with referrals
                6 => {
                    ctr += 1;
                    if ctr % 2 == 0 {
                        m.an.push(cn(qu.n.clone(), 0, under(&format!("c{}", ctr), &oz)));
                    } else {
                        m.ns.push(ns(sub.clone(), 0, under("n", &under(&format!("z{}", ctr), &oz))));
                    }
                }
                // nothing is ever cached
                7 => {
                    for _ in 0..width {
                        ctr += 1;
                        m.ns.push(ns(sub.clone(), 0, under("n", &under(&format!("z{}", ctr), &oz))));
                    }
                }
                // deeper and deeper, with new servers on the way
                _ => {
                    ctr += 1;
                    let d = (1 + ctr % 12).min(qu.n.len());
                    let zz = qu.n[qu.n.len() - d..].to_vec();
                    for _ in 0..width {
                        ctr += 1;
                        m.ns.push(ns(zz.clone(), 3600, under("n", &under(&format!("z{}", ctr), &oz))));
                    }
                    let h = under("g", &zz);
                    m.ns.push(ns(zz, 3600, h.clone()));
                    m.ar.push(a(h, 3600, [66, 6, 9, ctr as u8]));
                }
            }
            m.fix_counts();
            sim::Reply::Data(vec![(0, encode(&m, Compress::All))])
        });
        let long = g.gen_bool(0.4);
        case(&o, "fan", &conf, wi, json!({}), resp, 2, |h| {
            let n = if long { nm("a.b.c.d.e.f.g.h.i.j.x.bad") } else { nm("w.x.bad") };
            h.ask(&n, 1, false);
            h.ask(&nm("other.bad"), 1, false);
        });
    }
    o.finish();
}

// ------------------------------------------------------------------ forged replies
fn spoof(n: usize) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 16);
    for k in 0..n {
        let sh = Shape { glueless: false, ttls: vec![0, 60, 3600], hosts: 5, aliases: 2 };
        let w = rnd_world(&mut g, &sh);
        let wi = o.world(&w);
        let mut conf = usual();
        conf.retries = g.gen_range(2..=3);
        conf.cname = 8;
        let w2 = w.clone();
        let mut g2 = gen::rng(seed() * 100 + k as u64, 3);
        let mut ids: Vec<u16> = vec![];
        let mut seen: HashMap<([u8; 4], Vec<u8>), usize> = HashMap::new();
        let p = *[0.3, 0.7, 1.0].choose(&mut g).unwrap();
        let resp: sim::Responder = Box::new(move |q| {
            let c = seen.entry((q.ip, q.b.get(2..).unwrap_or(&[]).to_vec())).or_insert(0);
            *c += 1;
            let good = match w2.reply(&mut g2, q.ip, q.b) {
                Some(b) => b,
                None => return sim::Reply::Data(vec![]),
            };
            if *c % 2 == 0 || !g2.gen_bool(p) {
                return sim::Reply::Data(vec![(0, good)]);
            }
            let (id, qu) = match parse_query(q.b) {
                Some(x) => x,
                None => return sim::Reply::Data(vec![]),
            };
            // what an impostor would like to be believed
            let mut m = Msg::default();
            m.h.qr = 1;
            m.h.aa = 1;
            m.h.id = id;
            m.q.push(qu.clone());
            match g2.gen_range(0..6) {
                0 => m.h.rc = 3,
                1 => m.an.push(cn(qu.n.clone(), 3600, nm("a.com"))),
                2 => {
                    m.ns.push(ns(qu.n.clone(), 3600, under("ns", &qu.n)));
                    m.ar.push(a(under("ns", &qu.n), 3600, [66, 6, 6, 6]));
                    m.h.aa = 0;
                }
                3 => {}
                4 => m.an.push(txt(qu.n.clone(), 3600, "forged")),
                _ => m.an.push(a(qu.n.clone(), 3600, [66, 6, 6, 6])),
            }
            m.fix_counts();
            let mut b = encode(&m, Compress::No);
            ids.push(id);
            match g2.gen_range(0..13) {
                10..=12 => {
                    // ids that mean something special, or did so before
                    let old = *ids.choose(&mut g2).unwrap();
                    let i = *[0, 0xffff, 1, !id, old, old, id & 0xff00, id & 0xff].choose(&mut g2).unwrap();
                    b[..2].copy_from_slice(&i.to_be_bytes());
                }
                0 => b[0] ^= 1 << g2.gen_range(0..8),
                1 => b[1] ^= 1 << g2.gen_range(0..8),
                2 => {
                    b[0] = b[0].wrapping_add(1);
                    b[1] = b[1].wrapping_sub(1);
                }
                3 => b.swap(0, 1),
                4 => {
                    // not a message: cut
                    let l = b.len() - 1 - g2.gen_range(0..(b.len() - 1).min(14));
                    b.truncate(l);
                }
                5 => {
                    // not a message: more records announced than there are
                    let i = *[5usize, 7, 9, 11].choose(&mut g2).unwrap();
                    b[i] += 1;
                }
                6 => {
                    // not a message: a record whose length is off, a name that points ahead
                    b[11] += 1;
                    b.extend([0xc0, 0xff, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
                }
                7 => {
                    b[11] += 1;
                    b.extend([0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 9, 1, 2, 3, 4]);
                }
                8 => b.truncate(g2.gen_range(0..12)),
                _ => {
                    // the id of the previous query
                    let i = id.wrapping_sub(1);
                    b[..2].copy_from_slice(&i.to_be_bytes());
                }
            }
            if (b.len() >= 2 && b[0] == q.b[0] && b[1] == q.b[1]) && b.len() == encode(&m, Compress::No).len() && b[2..] == encode(&m, Compress::No)[2..] {
                b.truncate(3);
            }
            sim::Reply::Data(if g2.gen_bool(0.3) { vec![(0, b), (1, good)] } else { vec![(0, b)] })
        });
        let qs: Vec<(Nm, u16)> = (0..4).map(|_| rnd_question(&mut g, &w)).collect();
        case(&o, "spoof", &conf, wi, json!({}), resp, 4, |h| {
            for (n, t) in qs {
                h.ask(&n, t, true);
                if g.gen_bool(0.3) {
                    sim::advance_ms(61_000);
                }
            }
        });
    }
    o.finish();
}

// ------------------------------------------------------------------ truncated replies
fn tc(n: usize) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 17);
    for k in 0..n {
        let sh = Shape { glueless: g.gen(), ttls: vec![60, 3600], hosts: 5, aliases: 2 };
        let w = rnd_world(&mut g, &sh);
        let wi = o.world(&w);
        let mut conf = usual();
        conf.cname = 6;
        let w2 = w.clone();
        let mut g2 = gen::rng(seed() * 100 + k as u64, 4);
        let p = Arc::new(Mutex::new(*[0.2, 0.5, 1.0].choose(&mut g).unwrap()));
        let p2 = p.clone();
        let resp: sim::Responder = Box::new(move |q| {
            let (id, qu) = match parse_query(q.b) {
                Some(x) => x,
                None => return sim::Reply::Data(vec![]),
            };
            let mut m = match w2.answer(q.ip, &qu) {
                Some(m) => m,
                None => return sim::Reply::Data(vec![]),
            };
            m.h.id = id;
            if g2.gen_bool(*p2.lock().unwrap()) {
                m.h.tc = 1;
                match g2.gen_range(0..4) {
                    0 => m.ar.clear(),
                    1 => {
                        m.an.truncate(1);
                        m.ns.truncate(1);
                    }
                    2 => {
                        m.an.pop();
                    }
                    _ => {}
                }
            }
            sim::Reply::Data(vec![(0, w2.finish(&mut g2, m))])
        });
        let mut qs: Vec<(Nm, u16)> = (0..3).map(|_| rnd_question(&mut g, &w)).collect();
        qs.extend(qs.clone());
        qs.extend(qs[..3].to_vec());
        case(&o, "tc", &conf, wi, json!({}), resp, 9, |h| {
            for (i, (n, t)) in qs.into_iter().enumerate() {
                if i == 3 && g.gen() {
                    *p.lock().unwrap() = 0.0;
                }
                h.ask(&n, t, true);
                if g.gen_bool(0.2) {
                    sim::advance_ms(1000);
                }
            }
        });
    }
    o.finish();
}

// ------------------------------------------------------------------ alias chains
fn chain(n: usize) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 18);
    for k in 0..n {
        let sh = Shape { glueless: false, ttls: vec![1, 5, 60, 3600], hosts: 3, aliases: 0 };
        let mut w = rnd_world(&mut g, &sh);
        let cname = g.gen_range(1..=6);
        let len = g.gen_range(0..=cname + 2);
        let zones: Vec<Nm> = w.zones.iter().map(|z| z.zone.clone()).filter(|z| !z.is_empty()).collect();
        let ns: Vec<Nm> = (0..=len).map(|i| under(&format!("k{}", i), zones.choose(&mut g).unwrap())).collect();
        for i in 0..len {
            put(&mut w, cn(ns[i].clone(), rnd_ttl(&mut g, &[1, 5, 60, 3600]), ns[i + 1].clone()));
        }
        let last = ns[len].clone();
        match g.gen_range(0..6) {
            0 => {} // points nowhere
            1 if len > 0 => {
                // a circle
                let to = ns[g.gen_range(0..=len)].clone();
                put(&mut w, cn(last, 60, to));
            }
            2 => {
                put(&mut w, txt(last, 60, "only text"));
            }
            _ => {
                for i in 0..g.gen_range(1..=2) {
                    put(&mut w, a(last.clone(), 60, [10, 99, 0, i]));
                }
            }
        }
        let wi = o.world(&w);
        let mut conf = usual();
        conf.cname = cname;
        let resp = honest(&w, seed() * 1000 + k as u64);
        let m = g.gen_range(0..4);
        case(&o, "chain", &conf, wi, json!({}), resp, 6, |h| {
            for _ in 0..m {
                // bring some of it into the cache
                let x = ns[g.gen_range(0..=len)].clone();
                let t = *[1, 5, 1, 16].choose(&mut g).unwrap();
                h.ask(&x, t, true);
                if g.gen_bool(0.4) {
                    sim::advance_ms(g.gen_range(0..8000));
                }
            }
            let x = vary_case(&mut g, &ns[0]);
            h.ask(&x, 1, true);
            h.ask(&ns[0], 1, true);
        });
    }
    o.finish();
}

// ------------------------------------------------------------------ concurrency
fn conc(n: usize) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 19);
    for k in 0..n {
        let ttls = vec![[0, 1, 2, 3600, 4294967295][g.gen_range(0..5)], 1, [60, 4294967295][g.gen_range(0..2)]];
        let sh = Shape { glueless: g.gen_bool(0.4), ttls, hosts: 4, aliases: 2 };
        let w = rnd_world(&mut g, &sh);
        let wi = o.world(&w);
        let mut conf = usual();
        conf.cname = 6;
        conf.retries = 1;
        let resp = honest(&w, seed() * 1000 + k as u64);
        let nl = g.gen_range(2..=4u32);
        let mut qs: Vec<(Nm, u16)> = (0..nl).map(|_| rnd_question(&mut g, &w)).collect();
        if g.gen() {
            qs[1] = qs[0].clone();
        }
        let rounds = g.gen_range(1..=3u32);
        let pre = g.gen_range(0..3);
        let sd: u64 = g.gen();
        let pc = *[5, 20, 50].choose(&mut g).unwrap();
        case(&o, "conc", &conf, wi, json!({}), resp, 20, |h| {
            for (n, t) in qs.iter().take(pre) {
                h.ask(n, *t, true);
            }
            let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for (j, (n, t)) in qs.iter().enumerate() {
                let (cache, conf, n, t) = (h.cache.clone(), h.conf.clone(), n.clone(), *t);
                let base = h.l + 1 + j as u32 * rounds;
                jobs.push(Box::new(move || {
                    for r in 0..rounds {
                        one(&cache, &conf, SILENT, base + r, &n, t, true);
                    }
                }));
            }
            let cache = h.cache.clone();
            let mut g3 = gen::rng(sd, 9);
            jobs.push(Box::new(move || {
                for _ in 0..12 {
                    sim::point(sim::P::User);
                    sim::advance_ms(*[0, 300, 1000, 1200, 2500].choose(&mut g3).unwrap());
                    if g3.gen() {
                        cache.clean();
                    }
                }
            }));
            h.l += nl * rounds;
            sim::interleave(sd, pc, jobs);
            for (n, t) in &qs {
                h.ask(n, *t, true);
            }
        });
    }
    o.finish();
}

// ------------------------------------------------------------------ tracing
fn pair(n: usize) {
    let mut o = Out2::new();
    let mut g = gen::rng(seed(), 20);
    for k in 0..n {
        let sh = Shape { glueless: true, ttls: vec![1, 60, 3600], hosts: 5, aliases: 3 };
        let mut w = rnd_world(&mut g, &sh);
        // no two server names at one address, no server for a zone and its sub zone
        for z in w.zones.iter_mut() {
            z.recs.iter_mut().for_each(|_| ());
        }
        w.style &= !SHUFFLE;
        let wi = o.world(&w);
        let mut conf = usual();
        conf.cname = 5;
        let qs: Vec<(Nm, u16, u64)> = (0..4)
            .map(|_| {
                let (n, t) = rnd_question(&mut g, &w);
                (n, t, *[0, 0, 1500, 61_000].choose(&mut g).unwrap())
            })
            .collect();
        let bad: u64 = g.gen();
        let resp = |w: &World| -> sim::Responder {
            let w = w.clone();
            let mut g = gen::rng(bad, 21);
            Box::new(move |q| {
                // the fate of a query depends on where it goes and what it asks only
                let h = q.b.iter().skip(2).fold(bad ^ q.ip.iter().fold(0u64, |a, b| a * 256 + *b as u64), |a, b| (a ^ *b as u64).wrapping_mul(0x100000001b3));
                let kind = match (h >> 20) % 20 {
                    0 => "silent",
                    1 => "servfail",
                    2 => "wrongid",
                    3 => "garbage",
                    4 => "empty",
                    _ => "good",
                };
                fail_reply(&w, &mut g, kind, q.ip, q.b)
            })
        };
        let tps = [
            SILENT,
            TraceParams { verbose: true, silent: false, color: false },
            TraceParams { verbose: false, silent: false, color: true },
            TraceParams { verbose: true, silent: true, color: true },
        ];
        let other = tps[[0, 1, 2, 3][k % 4]].clone();
        let pc = Arc::new(Mutex::new(vec![]));
        sim::virtual_time(true);
        sim::begin(bound(&conf) * 4, resp(&w));
        {
            let mut h = Hist::new(&conf);
            h.tr = other.clone();
            for (n, t, p) in &qs {
                h.ask(n, *t, false);
                sim::advance_ms(*p);
            }
        }
        *pc.lock().unwrap() = sim::end();
        let pair = pc.lock().unwrap().clone();
        let r = resp(&w);
        case(&o, "pair", &conf, wi, json!({"pair": pair, "mute": other.silent}), r, 4, |h| {
            h.tr = TraceParams { verbose: false, silent: false, color: false };
            for (n, t, p) in &qs {
                h.ask(n, *t, false);
                sim::advance_ms(*p);
            }
        });
    }
    o.finish();
}
