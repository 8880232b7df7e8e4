//! Requests to servers: proper ones, and unusable ones of every kind.
use crate::gen::R;
use crate::srv::query;
use crate::wire::*;
use rand::prelude::*;

fn base(g: &mut R, names: &[Nm]) -> Msg {
    let mut m = Msg::default();
    m.h.id = g.gen();
    m.h.rd = g.gen_range(0..2);
    let n = names.choose(g).unwrap();
    m.q.push(Qu { n: case(g, n), t: *[1u16, 1, 1, 2, 5, 6, 12, 13, 15, 16, 11].choose(g).unwrap(), c: 1 });
    m.fix_counts();
    m
}

/// The name with the case of some letters changed.
pub fn case(g: &mut R, n: &Nm) -> Nm {
    n.iter().map(|l| l.iter().map(|c| if g.gen_bool(0.15) { c.to_ascii_uppercase() } else { *c }).collect()).collect()
}

fn comp(g: &mut R) -> Compress {
    if g.gen() { Compress::All } else { Compress::No }
}

/// All requests of a systematic sweep over header fields, counts, types and classes.
pub fn sweep(g: &mut R, names: &[Nm]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut put = |b: Vec<u8>| v.push(b);
    for f2 in 0..=255u16 {
        let m = base(g, names);
        let mut b = encode(&m, Compress::No);
        b[2] = f2 as u8;
        put(b);
        let m = base(g, names);
        let mut b = encode(&m, Compress::No);
        b[3] = f2 as u8;
        put(b);
    }
    for op in [1u8, 2, 3, 5] {
        for rc in [0u8, 1, 5, 6, 15] {
            for qr in 0..2 {
                let mut m = base(g, names);
                m.h.op = op;
                m.h.rc = rc;
                m.h.qr = qr;
                put(encode(&m, Compress::No));
                // a header alone
                m.q.clear();
                m.fix_counts();
                put(encode(&m, Compress::No));
            }
        }
    }
    for t in (0..=20u16).chain([28, 33, 41, 99, 251, 252, 253, 254, 255, 256, 257, 65280, 65535]) {
        for c in [1u16, 0, 2, 3, 4, 5, 254, 255, 256, 65535] {
            if c == 1 || t <= 2 || g.gen_bool(0.3) {
                let mut m = base(g, names);
                m.q[0].t = t;
                m.q[0].c = c;
                put(encode(&m, Compress::No));
            }
        }
    }
    // counts that differ from one question, with and without the entries being there
    for qc in 0..4u16 {
        for ac in 0..2u16 {
            for nc in 0..2u16 {
                for rc in 0..2u16 {
                    for there in [true, false] {
                        let mut m = base(g, names);
                        let q = m.q[0].clone();
                        m.q = vec![q; qc as usize];
                        if there {
                            for _ in 0..ac {
                                m.an.push(crate::gen::rr(g));
                            }
                            for _ in 0..nc {
                                m.ns.push(crate::gen::rr(g));
                            }
                            for _ in 0..rc {
                                m.ar.push(crate::gen::rr(g));
                            }
                        }
                        m.h.qc = qc;
                        m.h.ac = ac;
                        m.h.nc = nc;
                        m.h.rcnt = rc;
                        let b = encode(&m, comp(g));
                        if b.len() <= 512 {
                            put(b);
                        }
                    }
                }
            }
        }
    }
    // several questions, some of unknown type, and other sections with unknown types only
    for k in 0..8u16 {
        let mut m = base(g, names);
        let mut q = m.q[0].clone();
        if k & 1 != 0 {
            q.t = 999;
        }
        if k & 2 != 0 {
            m.q.insert(0, q);
        } else {
            m.q.push(q);
        }
        if k & 4 != 0 {
            let mut r = Rr::a("x", 1, [1, 2, 3, 4]);
            r.t = 28;
            r.raw = Some(vec![0; 16]);
            m.an.push(r);
        }
        m.fix_counts();
        put(encode(&m, Compress::No));
        let mut m = base(g, names);
        let mut r = Rr::a("x", 1, [1, 2, 3, 4]);
        r.t = if k & 1 != 0 { 28 } else { 41 };
        r.raw = Some(vec![0; 16]);
        match k % 3 {
            0 => m.an.push(r),
            1 => m.ns.push(r),
            _ => m.ar.push(r),
        }
        m.fix_counts();
        put(encode(&m, Compress::No));
    }
    // EDNS: an OPT record in the additional section
    for sz in [512u16, 1232, 4096] {
        let mut m = base(g, names);
        m.ar.push(Rr { n: vec![], t: 41, c: sz, ttl: [0; 4], d: RData::default(), raw: Some(vec![]) });
        m.fix_counts();
        put(encode(&m, Compress::No));
    }
    // additional records of types that are known but not supported, and of unsupported classes
    for t in [3u16, 4, 7, 8, 9, 10, 14, 252, 255] {
        let mut m = base(g, names);
        m.ar.push(Rr { n: nm("q.x"), t, c: 1, ttl: [0; 4], d: RData::default(), raw: Some(vec![0, 0, 0]) });
        m.fix_counts();
        put(encode(&m, Compress::No));
    }
    // every truncation of a request
    let m = base(g, names);
    let b = encode(&m, Compress::No);
    for l in 0..=b.len() {
        put(b[..l].to_vec());
    }
    for x in [0u8, 1, 255] {
        let mut y = b.clone();
        y.push(x);
        put(y);
    }
    // the same with a record
    let mut m = base(g, names);
    m.ar.push(Rr::ns("sub.x", 5, "ns.sub.x"));
    m.fix_counts();
    let b = encode(&m, Compress::All);
    for l in 12..b.len() {
        put(b[..l].to_vec());
    }
    // names that break the rules
    for ch in [0u8, b' ', b'.', b'-', b'_', b'*', b'@', 0x80, 0xff] {
        for pos in 0..3 {
            let mut l = b"abc".to_vec();
            l[pos] = ch;
            let mut b = header_bytes(&Hd { id: g.gen(), qc: 1, ..Default::default() });
            b.push(3);
            b.extend(l);
            b.extend([1, b'x', 0, 0, 1, 0, 1]);
            put(b);
        }
    }
    for p in [0u16, 1, 11, 12, 13, 14, 16, 17, 18, 100, 0x3fff] {
        let mut b = header_bytes(&Hd { id: g.gen(), qc: 1, ..Default::default() });
        b.extend([1, b'x']);
        b.extend((0xC000 | p).to_be_bytes());
        b.extend([0, 1, 0, 1]);
        put(b);
    }
    for l in [62usize, 63, 64, 65, 100, 127, 128, 191] {
        let mut b = header_bytes(&Hd { id: g.gen(), qc: 1, ..Default::default() });
        b.push(l as u8);
        b.extend(vec![b'a'; l]);
        b.extend([0, 0, 1, 0, 1]);
        put(b);
    }
    for len in 252..=258usize {
        let mut b = header_bytes(&Hd { id: g.gen(), qc: 1, ..Default::default() });
        let mut left = len - 1;
        while left > 0 {
            let mut l = left.min(64);
            if left - l == 1 {
                l -= 1;
            }
            b.push((l - 1) as u8);
            b.extend(vec![b'a'; l - 1]);
            left -= l;
        }
        b.extend([0, 0, 1, 0, 1]);
        put(b);
    }
    for x in [0u8, 0xff, 0xc0, 0x3f] {
        for l in [1usize, 2, 11, 12, 13, 17, 40, 512] {
            put(vec![x; l]);
        }
    }
    // full counts
    let mut b = header_bytes(&Hd { id: 7, qc: 65535, ac: 65535, nc: 65535, rcnt: 65535, ..Default::default() });
    put(b.clone());
    b.extend(vec![0u8; 500]);
    put(b);
    v
}

/// A random request: proper, unusual, damaged or arbitrary.
pub fn random(g: &mut R, names: &[Nm]) -> Vec<u8> {
    let mut m = base(g, names);
    match g.gen_range(0..10) {
        0..=3 => return query(g.gen(), &m.q[0].n, m.q[0].t),
        4 => {
            let mut b: Vec<u8> = (0..g.gen_range(0..80)).map(|_| g.gen()).collect();
            if b.len() > 4 && g.gen_bool(0.7) {
                b[2] &= 0x87;
                b[3] &= 0xf3;
            }
            return b;
        }
        5 => {
            m.h.qr = g.gen_range(0..2);
            m.h.op = g.gen_range(0..3);
            m.h.z = g.gen_range(0..8);
            m.h.aa = g.gen_range(0..2);
            m.h.ra = g.gen_range(0..2);
            m.h.tc = g.gen_range(0..2);
            m.h.rc = g.gen_range(0..7);
        }
        6 => {
            for _ in 0..g.gen_range(0..3) {
                let r = crate::gen::rr(g);
                match g.gen_range(0..3) {
                    0 => m.an.push(r),
                    1 => m.ns.push(r),
                    _ => m.ar.push(r),
                }
            }
            m.fix_counts();
        }
        _ => {
            if g.gen() {
                m.ar.push(crate::gen::rr(g));
                m.fix_counts();
            }
            let mut b = encode(&m, comp(g));
            b.truncate(512);
            for _ in 0..g.gen_range(1..4) {
                let p = g.gen_range(0..b.len());
                b[p] = *[0u8, 1, 2, 12, 63, 64, 192, 255, b[p] ^ 1, b[p] ^ 0x80, g.gen()].choose(g).unwrap();
            }
            if g.gen_bool(0.2) {
                b.truncate(g.gen_range(0..=b.len()));
            }
            return b;
        }
    }
    let mut b = encode(&m, comp(g));
    b.truncate(512);
    b
}
