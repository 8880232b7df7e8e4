//! The harness' own DNS message model and encoder/decoder, independent of /repo.
//! It mirrors the uniform record shape used by spec/Wire.tla.
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub type Label = Vec<u8>;
pub type Nm = Vec<Label>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct RData {
    pub nm: Vec<Nm>,
    pub by: Vec<Vec<u8>>,
    pub nu: Vec<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rr {
    pub n: Nm,
    pub t: u16,
    pub c: u16,
    pub ttl: [u8; 4],
    pub d: RData,
    #[serde(skip)]
    pub raw: Option<Vec<u8>>, // verbatim record data, for unknown types
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Qu {
    pub n: Nm,
    pub t: u16,
    pub c: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Hd {
    pub id: u16,
    pub qr: u8,
    pub op: u8,
    pub aa: u8,
    pub tc: u8,
    pub rd: u8,
    pub ra: u8,
    pub z: u8,
    pub rc: u8,
    pub qc: u16,
    pub ac: u16,
    pub nc: u16,
    pub rcnt: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Msg {
    pub h: Hd,
    pub q: Vec<Qu>,
    pub an: Vec<Rr>,
    pub ns: Vec<Rr>,
    pub ar: Vec<Rr>,
}

impl Msg {
    pub fn fix_counts(&mut self) {
        self.h.qc = self.q.len() as u16;
        self.h.ac = self.an.len() as u16;
        self.h.nc = self.ns.len() as u16;
        self.h.rcnt = self.ar.len() as u16;
    }
}

pub fn nm(s: &str) -> Nm {
    s.split('.').filter(|l| !l.is_empty()).map(|l| l.as_bytes().to_vec()).collect()
}

pub fn nm_str(n: &Nm) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter().map(|l| format!("{}.", String::from_utf8_lossy(l))).collect()
}

pub fn lower(n: &Nm) -> Nm {
    n.iter().map(|l| l.to_ascii_lowercase()).collect()
}

pub fn in_zone(n: &Nm, z: &Nm) -> bool {
    n.len() >= z.len() && lower(&n[n.len() - z.len()..].to_vec()) == lower(z)
}

impl Rr {
    pub fn new(n: &str, t: u16, ttl: u32, d: RData) -> Rr {
        Rr { n: nm(n), t, c: 1, ttl: ttl.to_be_bytes(), d, raw: None }
    }
    pub fn a(n: &str, ttl: u32, ip: [u8; 4]) -> Rr {
        Rr::new(n, 1, ttl, RData { by: vec![ip.to_vec()], ..Default::default() })
    }
    pub fn nametype(n: &str, t: u16, ttl: u32, target: &str) -> Rr {
        Rr::new(n, t, ttl, RData { nm: vec![nm(target)], ..Default::default() })
    }
    pub fn ns(n: &str, ttl: u32, t: &str) -> Rr {
        Rr::nametype(n, 2, ttl, t)
    }
    pub fn cname(n: &str, ttl: u32, t: &str) -> Rr {
        Rr::nametype(n, 5, ttl, t)
    }
    pub fn txt(n: &str, ttl: u32, s: &[&str]) -> Rr {
        Rr::new(n, 16, ttl, RData { by: s.iter().map(|x| x.as_bytes().to_vec()).collect(), ..Default::default() })
    }
    pub fn mx(n: &str, ttl: u32, p: u16, t: &str) -> Rr {
        Rr::new(n, 15, ttl, RData { nm: vec![nm(t)], nu: vec![p as u32], ..Default::default() })
    }
    pub fn soa(n: &str, ttl: u32, m: &str, r: &str, nums: [u32; 5]) -> Rr {
        let mut b = vec![];
        for x in nums {
            b.extend(x.to_be_bytes());
        }
        Rr::new(n, 6, ttl, RData { nm: vec![nm(m), nm(r)], by: vec![b], nu: vec![] })
    }
    pub fn ttl_u32(&self) -> u32 {
        u32::from_be_bytes(self.ttl)
    }
}

/// How the encoder compresses names.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Compress {
    No,
    Owners, // owner names only
    All,    // also names in record data
}

struct Enc {
    b: Vec<u8>,
    seen: HashMap<Nm, usize>,
}

impl Enc {
    fn u16(&mut self, v: u16) {
        self.b.extend(v.to_be_bytes());
    }
    fn name(&mut self, n: &Nm, comp: bool) {
        let mut i = 0;
        while i < n.len() {
            let suffix: Nm = n[i..].to_vec();
            if comp {
                if let Some(&p) = self.seen.get(&suffix) {
                    self.u16(0xC000 | p as u16);
                    return;
                }
            }
            if self.b.len() < 0x4000 {
                let l = self.b.len();
                self.seen.entry(suffix).or_insert(l);
            }
            self.b.push(n[i].len() as u8);
            self.b.extend(&n[i]);
            i += 1;
        }
        self.b.push(0);
    }
    fn rr(&mut self, r: &Rr, c: Compress) {
        self.name(&r.n, c != Compress::No);
        self.u16(r.t);
        self.u16(r.c);
        self.b.extend(r.ttl);
        let at = self.b.len();
        self.u16(0);
        let all = c == Compress::All;
        if let Some(raw) = &r.raw {
            self.b.extend(raw);
        } else {
            match r.t {
                1 => self.b.extend(&r.d.by[0]),
                2 | 5 | 12 => self.name(&r.d.nm[0], all),
                6 => {
                    self.name(&r.d.nm[0], all);
                    self.name(&r.d.nm[1], all);
                    self.b.extend(&r.d.by[0]);
                }
                11 => {
                    self.b.extend(&r.d.by[0]);
                    self.b.extend(&r.d.by[1]);
                    let mut bm = vec![];
                    for &p in &r.d.nu {
                        let k = p as usize / 8;
                        if bm.len() <= k {
                            bm.resize(k + 1, 0u8);
                        }
                        bm[k] |= 0x80 >> (p % 8);
                    }
                    self.b.extend(bm);
                }
                13 | 16 => {
                    for s in &r.d.by {
                        self.b.push(s.len() as u8);
                        self.b.extend(s);
                    }
                }
                15 => {
                    self.u16(r.d.nu[0] as u16);
                    self.name(&r.d.nm[0], all);
                }
                _ => {}
            }
        }
        let len = self.b.len() - at - 2;
        self.b[at..at + 2].copy_from_slice(&(len as u16).to_be_bytes());
    }
}

pub fn header_bytes(h: &Hd) -> Vec<u8> {
    let mut b = vec![];
    b.extend(h.id.to_be_bytes());
    b.push(h.qr << 7 | h.op << 3 | h.aa << 2 | h.tc << 1 | h.rd);
    b.push(h.ra << 7 | h.z << 4 | h.rc);
    for x in [h.qc, h.ac, h.nc, h.rcnt] {
        b.extend(x.to_be_bytes());
    }
    b
}

pub fn encode(m: &Msg, c: Compress) -> Vec<u8> {
    let mut e = Enc { b: header_bytes(&m.h), seen: HashMap::new() };
    for q in &m.q {
        e.name(&q.n, c != Compress::No);
        e.u16(q.t);
        e.u16(q.c);
    }
    for r in m.an.iter().chain(&m.ns).chain(&m.ar) {
        e.rr(r, c);
    }
    e.b
}

fn rd_name(b: &[u8], p: &mut usize) -> Option<Nm> {
    let mut n = vec![];
    let mut q = *p;
    let mut end = None;
    let mut jumps = 0;
    loop {
        let c = *b.get(q)? as usize;
        if c == 0 {
            q += 1;
            break;
        }
        if c >= 192 {
            let t = (c - 192) * 256 + *b.get(q + 1)? as usize;
            end.get_or_insert(q + 2);
            jumps += 1;
            if jumps > 200 {
                return None;
            }
            q = t;
            continue;
        }
        if c >= 64 {
            return None;
        }
        n.push(b.get(q + 1..q + 1 + c)?.to_vec());
        q += 1 + c;
    }
    *p = end.unwrap_or(q);
    Some(n)
}

/// Plain decoder for queries sent by the code under test to the simulated servers
/// (header and questions only).
pub fn decode_query(b: &[u8]) -> Option<Msg> {
    if b.len() < 12 {
        return None;
    }
    let g = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
    let h = Hd {
        id: g(0),
        qr: b[2] >> 7,
        op: (b[2] >> 3) & 15,
        aa: (b[2] >> 2) & 1,
        tc: (b[2] >> 1) & 1,
        rd: b[2] & 1,
        ra: b[3] >> 7,
        z: (b[3] >> 4) & 7,
        rc: b[3] & 15,
        qc: g(4),
        ac: g(6),
        nc: g(8),
        rcnt: g(10),
    };
    let mut p = 12;
    let mut q = vec![];
    for _ in 0..h.qc {
        let n = rd_name(b, &mut p)?;
        if p + 4 > b.len() {
            return None;
        }
        q.push(Qu { n, t: g(p), c: g(p + 2) });
        p += 4;
    }
    Some(Msg { h, q, ..Default::default() })
}
