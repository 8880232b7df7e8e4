//! A hierarchy of zones and the well-behaved servers that serve it.
use crate::gen;
use crate::wire::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};

pub const ROOTS: [(&str, [u8; 4]); 13] = [
    ("a", [198, 41, 0, 4]),
    ("b", [199, 9, 14, 201]),
    ("c", [192, 33, 4, 12]),
    ("d", [199, 7, 91, 13]),
    ("e", [192, 203, 230, 10]),
    ("f", [192, 5, 5, 241]),
    ("g", [192, 112, 36, 4]),
    ("h", [198, 97, 190, 53]),
    ("i", [192, 36, 148, 17]),
    ("j", [192, 58, 128, 30]),
    ("k", [193, 0, 14, 129]),
    ("l", [199, 7, 83, 42]),
    ("m", [202, 12, 27, 33]),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WZone {
    pub zone: Nm,
    pub recs: Vec<Rr>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct World {
    pub zones: Vec<WZone>,
    /// how the servers behave where they have a choice, as bits
    #[serde(default)]
    pub style: u32,
}

pub const CHASE: u32 = 1; // an alias is followed inside the zones the server has
pub const HINT: u32 = 2; // ... and the servers of the target's zone are named
pub const SIB_GLUE: u32 = 4; // addresses of name servers in the parent zone are added
pub const OUT_GLUE: u32 = 8; // ... and of name servers elsewhere
pub const EXTRA: u32 = 16; // addresses of hosts named in an answer, NS records of the zone
pub const SHUFFLE: u32 = 32; // record order varies
pub const COMPRESS: u32 = 64;
pub const MIXED: u32 = 256; // every name in replies in a case of its own
pub const UPPER: u32 = 128; // names in upper case in replies

pub fn rr(n: Nm, t: u16, ttl: u32, nmv: Vec<Nm>, by: Vec<Vec<u8>>, nu: Vec<u32>) -> Rr {
    Rr { n, t, c: 1, ttl: ttl.to_be_bytes(), d: RData { nm: nmv, by, nu }, raw: None }
}
pub fn a(n: Nm, ttl: u32, ip: [u8; 4]) -> Rr {
    rr(n, 1, ttl, vec![], vec![ip.to_vec()], vec![])
}
pub fn ns(z: Nm, ttl: u32, t: Nm) -> Rr {
    rr(z, 2, ttl, vec![t], vec![], vec![])
}
pub fn cn(n: Nm, ttl: u32, t: Nm) -> Rr {
    rr(n, 5, ttl, vec![t], vec![], vec![])
}
pub fn soa(z: Nm, ttl: u32) -> Rr {
    let mut b = vec![0u8; 20];
    b[3] = 1;
    b[19] = 5;
    rr(z.clone(), 6, ttl, vec![under("ns", &z), under("m", &z)], vec![b], vec![])
}
pub fn txt(n: Nm, ttl: u32, s: &str) -> Rr {
    rr(n, 16, ttl, vec![], vec![s.as_bytes().to_vec()], vec![])
}
pub fn mx(n: Nm, ttl: u32, p: u32, t: Nm) -> Rr {
    rr(n, 15, ttl, vec![t], vec![], vec![p])
}
pub fn under(l: &str, z: &Nm) -> Nm {
    let mut n = vec![l.as_bytes().to_vec()];
    n.extend(z.clone());
    n
}

pub fn root_zone(ttl: u32) -> WZone {
    let mut recs = vec![soa(vec![], ttl)];
    for (l, ip) in ROOTS {
        let n = under(l, &nm("root-servers.net"));
        recs.push(ns(vec![], ttl, n.clone()));
        recs.push(a(n, ttl, ip));
    }
    WZone { zone: vec![], recs }
}

fn same(a: &Nm, b: &Nm) -> bool {
    lower(a) == lower(b)
}

impl World {
    pub fn deepest(&self, n: &Nm) -> &WZone {
        self.zones.iter().filter(|z| in_zone(n, &z.zone)).max_by_key(|z| z.zone.len()).expect("root")
    }
    pub fn addrs(&self, n: &Nm) -> Vec<Rr> {
        self.deepest(n).recs.iter().filter(|r| r.t == 1 && same(&r.n, n)).cloned().collect()
    }
    pub fn nss(&self, z: &WZone) -> Vec<Rr> {
        z.recs.iter().filter(|r| r.t == 2 && same(&r.n, &z.zone)).cloned().collect()
    }
    /// The zones the server at this address has.
    pub fn served(&self, ip: [u8; 4]) -> Vec<&WZone> {
        self.zones.iter().filter(|z| self.nss(z).iter().any(|r| self.addrs(&r.d.nm[0]).iter().any(|x| x.d.by[0] == ip))).collect()
    }
    pub fn ips(&self, z: &WZone) -> Vec<[u8; 4]> {
        self.nss(z).iter().flat_map(|r| self.addrs(&r.d.nm[0])).map(|x| x.d.by[0].clone().try_into().unwrap()).collect()
    }
    fn cut(&self, z: &WZone, n: &Nm) -> Option<&WZone> {
        self.zones
            .iter()
            .filter(|c| c.zone.len() > z.zone.len() && in_zone(&c.zone, &z.zone) && in_zone(n, &c.zone))
            .min_by_key(|c| c.zone.len())
    }

    /// What a proper server at ip replies, as a message (None: it has no such zone).
    pub fn answer(&self, ip: [u8; 4], q: &Qu) -> Option<Msg> {
        let st = self.style;
        let served = self.served(ip);
        let mut m = Msg::default();
        m.h.qr = 1;
        m.q.push(q.clone());
        let z = *served.iter().filter(|z| in_zone(&q.n, &z.zone)).max_by_key(|z| z.zone.len())?;
        if let Some(c) = self.cut(z, &q.n) {
            m.ns = self.nss(c);
            let mut seen: Vec<Nm> = vec![];
            for r in &m.ns {
                let t = r.d.nm[0].clone();
                let want = in_zone(&t, &c.zone) || (in_zone(&t, &z.zone) && st & SIB_GLUE != 0) || st & OUT_GLUE != 0;
                if want && !seen.contains(&lower(&t)) {
                    m.ar.extend(self.addrs(&t));
                    seen.push(lower(&t));
                }
            }
            return Some(m);
        }
        m.h.aa = 1;
        let mut n = q.n.clone();
        let mut z = z;
        for hop in 0..8 {
            let here: Vec<Rr> = z.recs.iter().filter(|r| same(&r.n, &n)).cloned().collect();
            let hit: Vec<Rr> = here.iter().filter(|r| r.t == q.t).cloned().collect();
            let alias = here.iter().find(|r| r.t == 5).cloned();
            if !hit.is_empty() {
                m.an.extend(hit);
                if st & EXTRA != 0 {
                    if q.t != 2 {
                        m.ns = self.nss(z);
                    }
                    let mut ar = vec![];
                    for r in m.an.iter().chain(m.ns.iter()) {
                        if (r.t == 2 || r.t == 15) && in_zone(&r.d.nm[0], &z.zone) {
                            for x in self.addrs(&r.d.nm[0]) {
                                if !m.an.contains(&x) && !ar.contains(&x) {
                                    ar.push(x);
                                }
                            }
                        }
                    }
                    m.ar = ar;
                }
                return Some(m);
            }
            if let Some(c) = alias {
                let t = c.d.nm[0].clone();
                if m.an.contains(&c) {
                    return Some(m);
                }
                m.an.push(c);
                let home = served.iter().filter(|x| in_zone(&t, &x.zone)).max_by_key(|x| x.zone.len());
                match home {
                    Some(h) if st & CHASE != 0 => match self.cut(h, &t) {
                        Some(c) if st & HINT != 0 => {
                            m.ns = self.nss(c);
                            for r in &m.ns {
                                let t = r.d.nm[0].clone();
                                if in_zone(&t, &h.zone) {
                                    m.ar.extend(self.addrs(&t));
                                }
                            }
                            return Some(m);
                        }
                        Some(_) => return Some(m),
                        None => {
                            z = h;
                            n = t;
                            continue;
                        }
                    },
                    Some(h) if st & HINT != 0 => {
                        let c = self.cut(h, &t).unwrap_or(h);
                        m.ns = self.nss(c);
                        for r in &m.ns {
                            let t = r.d.nm[0].clone();
                            if in_zone(&t, &h.zone) {
                                m.ar.extend(self.addrs(&t));
                            }
                        }
                        return Some(m);
                    }
                    _ => return Some(m),
                }
            }
            let exists = !here.is_empty()
                || z.recs.iter().any(|r| in_zone(&r.n, &n))
                || self.zones.iter().any(|c| in_zone(&c.zone, &n));
            if !exists {
                m.h.rc = 3;
            }
            if hop == 0 || !exists {
                m.ns = z.recs.iter().filter(|r| r.t == 6).cloned().collect();
            }
            return Some(m);
        }
        Some(m)
    }

    /// The datagram, at most 512 octets (cut and flagged if need be).
    pub fn reply(&self, g: &mut gen::R, ip: [u8; 4], b: &[u8]) -> Option<Vec<u8>> {
        let (id, q) = parse_query(b)?;
        let mut m = match self.answer(ip, &q) {
            Some(m) => m,
            None => {
                let mut m = Msg::default();
                m.h.qr = 1;
                m.h.rc = 5;
                m.q.push(q.clone());
                m
            }
        };
        m.h.id = id;
        m.h.rd = (b[2]) & 1;
        Some(self.finish(g, m))
    }

    pub fn finish(&self, g: &mut gen::R, mut m: Msg) -> Vec<u8> {
        if self.style & SHUFFLE != 0 {
            m.an.shuffle(g);
            m.ns.shuffle(g);
            m.ar.shuffle(g);
        }
        if self.style & UPPER != 0 {
            for r in m.an.iter_mut().chain(m.ns.iter_mut()).chain(m.ar.iter_mut()) {
                if g.gen() {
                    for l in r.n.iter_mut() {
                        l.make_ascii_uppercase();
                    }
                }
            }
        }
        if self.style & MIXED != 0 {
            for r in m.an.iter_mut().chain(m.ns.iter_mut()).chain(m.ar.iter_mut()) {
                for x in std::iter::once(&mut r.n).chain(r.d.nm.iter_mut()) {
                    let up = g.gen_range(0..3);
                    for c in x.iter_mut().flat_map(|l| l.iter_mut()) {
                        if up == 1 || (up == 2 && g.gen()) {
                            c.make_ascii_uppercase();
                        }
                    }
                }
            }
        }
        let c = if self.style & COMPRESS != 0 { Compress::All } else { Compress::No };
        loop {
            m.fix_counts();
            let b = encode(&m, c);
            if b.len() <= 512 {
                return b;
            }
            // addresses nobody depends on may be left out silently, anything else not
            if m.h.aa == 1 && m.ar.pop().is_some() {
                continue;
            }
            m.h.tc = 1;
            if m.ar.pop().is_none() && m.ns.pop().is_none() {
                m.an.pop();
            }
        }
    }
}

/// Id and question of a query.
pub fn parse_query(b: &[u8]) -> Option<(u16, Qu)> {
    if b.len() < 17 {
        return None;
    }
    let id = u16::from_be_bytes([b[0], b[1]]);
    let mut n = vec![];
    let mut p = 12;
    loop {
        let l = *b.get(p)? as usize;
        p += 1;
        if l == 0 {
            break;
        }
        if l > 63 {
            return None;
        }
        n.push(b.get(p..p + l)?.to_vec());
        p += l;
    }
    let t = b.get(p..p + 4)?;
    Some((id, Qu { n, t: u16::from_be_bytes([t[0], t[1]]), c: u16::from_be_bytes([t[2], t[3]]) }))
}
