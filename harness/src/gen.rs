//! Random names, records and messages.
use crate::wire::*;
use rand::prelude::*;
use rand::rngs::StdRng;

pub type R = StdRng;

pub fn rng(seed: u64, salt: u64) -> R {
    R::seed_from_u64(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt)
}

const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

pub fn label(g: &mut R, len: usize) -> Label {
    (0..len)
        .map(|i| {
            if i > 0 && i + 1 < len && g.gen_bool(0.15) {
                b'-'
            } else {
                ALNUM[g.gen_range(0..ALNUM.len())]
            }
        })
        .collect()
}

pub fn name(g: &mut R) -> Nm {
    match g.gen_range(0..20) {
        0 => vec![],
        1 => name_of_len(g, 255),
        2 => {
            let l = g.gen_range(200..=255);
            name_of_len(g, l)
        }
        3 => vec![label(g, 63), label(g, 62), label(g, 1)],
        4 => (0..g.gen_range(20..127)).map(|_| label(g, 1)).collect(),
        5..=9 => {
            let pool: [&[&str]; 6] =
                [&["www", "example", "com"], &["example", "com"], &["EXAMPLE", "com"], &["com"], &["a", "www", "example", "com"], &["ns1", "example", "org"]];
            pool[g.gen_range(0..6)].iter().map(|s| s.as_bytes().to_vec()).collect()
        }
        _ => (0..g.gen_range(1..5))
            .map(|_| {
                let n = g.gen_range(1..10);
                label(g, n)
            })
            .collect(),
    }
}

/// A name whose encoding has exactly `len` octets (if possible).
pub fn name_of_len(g: &mut R, len: usize) -> Nm {
    let mut left = len - 1;
    let mut n = vec![];
    while left > 1 {
        let mut l = g.gen_range(1..=63usize).min(left - 1);
        if left - 1 - l == 1 {
            l = if l > 1 { l - 1 } else { l };
        }
        if left - 1 - l == 1 {
            break;
        }
        n.push(label(g, l));
        left -= l + 1;
    }
    n
}

pub fn ascii(g: &mut R, max: usize) -> Vec<u8> {
    let n = match g.gen_range(0..8) {
        0 => 0,
        1 => max,
        _ => g.gen_range(0..=max.min(20)),
    };
    (0..n).map(|_| g.gen_range(0..128u8)).collect()
}

pub fn ttl(g: &mut R) -> [u8; 4] {
    match g.gen_range(0..6) {
        0 => [0, 0, 0, 0],
        1 => [0xff, 0xff, 0xff, 0xff],
        2 => [0x7f, 0xff, 0xff, 0xff],
        3 => [0x80, 0, 0, 0],
        _ => g.gen::<u32>().to_be_bytes(),
    }
}

pub const TYPES: [u16; 9] = [1, 2, 5, 6, 11, 12, 13, 15, 16];

pub fn rr(g: &mut R) -> Rr {
    let t = TYPES[g.gen_range(0..TYPES.len())];
    rr_of(g, t)
}

pub fn rr_of(g: &mut R, t: u16) -> Rr {
    let mut d = RData::default();
    match t {
        1 => d.by.push(g.gen::<[u8; 4]>().to_vec()),
        2 | 5 | 12 => d.nm.push(name(g)),
        6 => {
            d.nm.push(name(g));
            d.nm.push(name(g));
            d.by.push((0..20).map(|_| g.gen()).collect());
        }
        11 => {
            d.by.push(g.gen::<[u8; 4]>().to_vec());
            d.by.push(vec![g.gen()]);
            let n = g.gen_range(0..6);
            let max = *[8u32, 64, 1024, 65535].choose(g).unwrap();
            let mut p: Vec<u32> = (0..n).map(|_| g.gen_range(0..=max)).collect();
            if g.gen_bool(0.1) {
                p.push(65535);
            }
            if g.gen_bool(0.2) {
                p.push(0);
            }
            p.sort();
            p.dedup();
            d.nu = p;
        }
        13 => {
            d.by.push(ascii(g, 255));
            d.by.push(ascii(g, 255));
        }
        15 => {
            d.nu.push(g.gen::<u16>() as u32);
            d.nm.push(name(g));
        }
        16 => {
            let n = *[1, 1, 2, 3, 6].choose(g).unwrap();
            d.by = (0..n).map(|_| ascii(g, 255)).collect();
        }
        _ => panic!(),
    }
    Rr { n: name(g), t, c: 1, ttl: ttl(g), d, raw: None }
}

pub fn msg(g: &mut R) -> Msg {
    let mut m = Msg::default();
    m.h.id = g.gen();
    m.h.qr = g.gen_range(0..2);
    m.h.aa = g.gen_range(0..2);
    m.h.tc = g.gen_range(0..2);
    m.h.rd = g.gen_range(0..2);
    m.h.ra = g.gen_range(0..2);
    m.h.z = if g.gen_bool(0.3) { g.gen_range(0..8) } else { 0 };
    m.h.rc = g.gen_range(0..6);
    for _ in 0..*[0, 1, 1, 1, 2].choose(g).unwrap() {
        m.q.push(Qu { n: name(g), t: TYPES[g.gen_range(0..9)], c: 1 });
    }
    for s in 0..3 {
        for _ in 0..*[0, 0, 1, 1, 2, 3].choose(g).unwrap() {
            let r = rr(g);
            match s {
                0 => m.an.push(r),
                1 => m.ns.push(r),
                _ => m.ar.push(r),
            }
        }
    }
    m.fix_counts();
    m
}
