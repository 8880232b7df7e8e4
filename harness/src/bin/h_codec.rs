//! C01, C02: encoder and decoder.
use harness::conv::*;
use harness::gen;
use harness::out::*;
use harness::wire::*;
use harness::*;
use ariadne_dns::shared::buffer::BitsBuf;
use ariadne_dns::shared::dns;
use rand::prelude::*;
use serde_json::{json, Value};

fn dec(bytes: &[u8]) -> Value {
    match dns::Message::decode_from_bytes(bytes) {
        Ok(m) => json!({"ok": true, "m": msg_to(&m)}),
        Err(_) => json!({"ok": false, "why": "err"}),
    }
}

fn dec_case(o: &Out, b: &[u8]) {
    o.case(json!({"k": "dec", "b": b}), || dec(b));
}

fn enc_case(o: &Out, m: &Msg) {
    let lax = m.an.iter().chain(&m.ns).chain(&m.ar).any(|r| r.d.by.iter().any(|s| s.iter().any(|c| *c >= 128)));
    let r = o.case(json!({"k": "enc", "m": m, "lax": lax}), || match msg_from(m).encode_to_bytes() {
        Ok(b) => json!({"ok": true, "b": b}),
        Err(_) => json!({"ok": false, "why": "err"}),
    });
    if let Some(b) = r.get("b") {
        let b: Vec<u8> = serde_json::from_value(b.clone()).unwrap();
        dec_case(o, &b);
    }
}

/// Round trips: random messages of all types, plus one message per type with special names.
pub fn run_enc(o: &Out, seed: u64, n: usize) {
    let mut g = gen::rng(seed, 1);
    for t in gen::TYPES {
        for _ in 0..6 {
            let mut m = Msg::default();
            m.an.push(gen::rr_of(&mut g, t));
            m.q.push(Qu { n: gen::name(&mut g), t, c: 1 });
            m.fix_counts();
            enc_case(o, &m);
        }
        let mut m = Msg::default();
        let mut r = gen::rr_of(&mut g, t);
        r.n = vec![];
        for x in r.d.nm.iter_mut() {
            *x = vec![];
        }
        m.an.push(r);
        m.q.push(Qu { n: vec![], t, c: 1 });
        m.fix_counts();
        enc_case(o, &m);
        // replies that echo every operation code
        for op in 0..3 {
            m.h.qr = 1;
            m.h.op = op;
            enc_case(o, &m);
        }
    }
    // character strings that are UTF-8 but not ASCII, and long TXT data
    let mut m = Msg::default();
    m.an.push(Rr::txt("é.x".replace('é', "e").as_str(), 5, &["caffè", "", "a"]));
    let s255 = "x".repeat(255);
    m.an.push(Rr::txt("x", 5, &vec![s255.as_str(); 40]));
    m.fix_counts();
    enc_case(o, &m);
    for _ in 0..n {
        let m = gen::msg(&mut g);
        enc_case(o, &m);
    }
}

/// Messages of another implementation: with and without compression, with unknown types.
pub fn run_foreign(o: &Out, seed: u64, n: usize) {
    let mut g = gen::rng(seed, 2);
    for i in 0..n {
        let mut m = gen::msg(&mut g);
        let uk = |g: &mut gen::R| *[17u16, 28, 33, 41, 46, 99, 251, 256, 257, 65280, 0, 65535].choose(g).unwrap();
        if g.gen_bool(0.5) {
            for s in 0..3 {
                for _ in 0..g.gen_range(0..3) {
                    let mut r = gen::rr_of(&mut g, 1);
                    r.t = uk(&mut g);
                    r.c = *[1u16, 4096, 3, 0].choose(&mut g).unwrap();
                    let l = *[0usize, 1, 4, 16, 300].choose(&mut g).unwrap();
                    r.raw = Some((0..l).map(|_| g.gen()).collect());
                    let v = match s {
                        0 => &mut m.an,
                        1 => &mut m.ns,
                        _ => &mut m.ar,
                    };
                    let p = g.gen_range(0..=v.len());
                    v.insert(p, r);
                }
            }
            if g.gen_bool(0.3) {
                let p = g.gen_range(0..=m.q.len());
                m.q.insert(p, Qu { n: gen::name(&mut g), t: uk(&mut g), c: *[1u16, 255, 7].choose(&mut g).unwrap() });
            }
            m.fix_counts();
        }
        let c = [Compress::No, Compress::Owners, Compress::All][i % 3];
        dec_case(o, &encode(&m, c));
    }
    // a large message: pointers and record data beyond 8 KB, up to the 14-bit limit
    for big in [8300usize, 16300, 30000] {
        let mut m = Msg::default();
        let pad = Rr { raw: Some(vec![7; big]), t: 99, ..Rr::a("pad.x", 1, [1, 2, 3, 4]) };
        m.an.push(pad);
        m.an.push(Rr::ns("deep.name.example", 5, "ns.deep.name.example"));
        m.an.push(Rr::mx("mx.deep.name.example", 5, 3, "other.deep.name.example"));
        m.fix_counts();
        dec_case(o, &encode(&m, Compress::All));
    }
    // record data of 8192 bytes and more
    for k in [20usize, 31, 33, 40] {
        let mut m = Msg::default();
        let s: Vec<Vec<u8>> = (0..k).map(|i| vec![b'a' + (i % 26) as u8; 255]).collect();
        m.an.push(Rr::new("big.x", 16, 9, RData { by: s, ..Default::default() }));
        m.an.push(Rr::a("after.x", 1, [1, 2, 3, 4]));
        m.fix_counts();
        dec_case(o, &encode(&m, Compress::No));
    }
    let mut m = Msg::default();
    m.an.push(Rr::new("wks.x", 11, 9, RData { by: vec![vec![1, 2, 3, 4], vec![6]], nu: vec![0, 7, 8, 25, 65535], ..Default::default() }));
    m.fix_counts();
    dec_case(o, &encode(&m, Compress::No));
    // chains of pointers, n jumps
    for n in [1usize, 2, 10, 14, 15, 16, 17, 40, 100, 126, 127] {
        let mut b = header_bytes(&Hd { id: 9, qc: 1, ac: 1, ..Default::default() });
        // question: name at 12
        let mut at = b.len();
        b.extend([1, b'z', 0, 0, 1, 0, 1]);
        // an unknown record whose data holds a chain of one-label names, each pointing to the previous one
        b.extend([0, 0, 99, 0, 1, 0, 0, 0, 0]);
        let l = (n * 4) as u16;
        b.extend(l.to_be_bytes());
        for _ in 0..n {
            let p = b.len();
            b.extend([1, b'a', 0xC0 | (at >> 8) as u8, at as u8]);
            at = p;
        }
        b[7] = 2;
        b.extend([0xC0 | (at >> 8) as u8, at as u8, 0, 1, 0, 1, 0, 0, 0, 5, 0, 4, 1, 2, 3, 4]);
        dec_case(o, &b);
    }
}

fn small_msgs(g: &mut gen::R) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for t in gen::TYPES {
        for c in [Compress::No, Compress::All] {
            let mut m = Msg::default();
            m.h.id = g.gen();
            m.h.qr = g.gen_range(0..2);
            m.q.push(Qu { n: nm("ab.cd"), t, c: 1 });
            let mut r = gen::rr_of(g, t);
            r.n = nm("x.ab.cd");
            for x in r.d.nm.iter_mut() {
                *x = nm("y.ab.cd");
            }
            if t == 13 || t == 16 {
                r.d.by = vec![b"abc".to_vec(), b"de".to_vec()];
            }
            if t == 11 {
                r.d.nu = vec![0, 9, 23];
            }
            match t % 3 {
                0 => m.an.push(r),
                1 => m.ns.push(r),
                _ => m.ar.push(r),
            }
            m.fix_counts();
            v.push(encode(&m, c));
        }
    }
    v
}

/// Arbitrary and damaged bytes.
pub fn run_damaged(o: &Out, seed: u64, n: usize, deep: bool) {
    let mut g = gen::rng(seed, 3);
    let base = small_msgs(&mut g);
    // every truncation of every message
    for b in &base {
        for l in 0..b.len() {
            dec_case(o, &b[..l]);
        }
        let mut x = b.clone();
        x.push(0);
        dec_case(o, &x);
    }
    // every byte replaced by interesting values
    for b in &base {
        for p in 2..b.len() {
            let vals: Vec<u8> = if deep {
                vec![0, 1, 2, 3, 12, 13, 63, 64, 127, 128, 191, 192, 193, 255, b'.', b'-', b'_', b' ', b[p].wrapping_add(1), b[p].wrapping_sub(1), b[p] ^ 0x80]
            } else {
                let all = [0, 1, 12, 63, 64, 128, 192, 193, 255, b'.', b'-', b'_'];
                let mut w = vec![b[p].wrapping_add(1), b[p].wrapping_sub(1)];
                w.extend(all.choose_multiple(&mut g, 2));
                w
            };
            for v in vals {
                let mut x = b.clone();
                if x[p] != v {
                    x[p] = v;
                    dec_case(o, &x);
                }
            }
        }
    }
    // all characters at the start, inside and at the end of a label
    for ch in 0..=255u8 {
        for l in [vec![ch], vec![ch, b'a', b'b'], vec![b'a', ch, b'b'], vec![b'a', b'b', ch]] {
            let mut b = header_bytes(&Hd { qc: 1, ..Default::default() });
            b.push(l.len() as u8);
            b.extend(&l);
            b.extend([1, b'q', 0, 0, 1, 0, 1]);
            dec_case(o, &b);
        }
    }
    // names around the length limits, in place and through pointers
    for len in 250..=260usize {
        for ptr in [false, true] {
            let k = len - 1; // octets of labels
            let mut body = vec![];
            let mut left = k;
            while left > 0 {
                let mut l = left.min(64);
                if left - l == 1 {
                    l -= 1;
                }
                body.push((l - 1) as u8);
                body.extend(vec![b'a'; l - 1]);
                left -= l;
            }
            let mut b = header_bytes(&Hd { qc: 2, ..Default::default() });
            if ptr {
                // first question is the tail of the name, the second one points to it
                let cut = 1 + body[0] as usize;
                b.extend(&body[cut..]);
                b.extend([0, 0, 1, 0, 1]);
                b.extend(&body[..cut]);
                b.extend([0xC0, 12, 0, 1, 0, 1]);
            } else {
                b.extend([1, b'a', 0, 0, 1, 0, 1]);
                b.extend(&body);
                b.extend([0, 0, 1, 0, 1]);
            }
            dec_case(o, &b);
        }
    }
    for l in 60..=70u8 {
        let mut b = header_bytes(&Hd { qc: 1, ..Default::default() });
        b.push(l);
        b.extend(vec![b'a'; l as usize]);
        b.extend([0, 0, 1, 0, 1]);
        dec_case(o, &b);
    }
    // every pointer target in a small message, from a question, an owner and record data
    let mut tgt: Vec<u16> = (0..60).collect();
    tgt.extend([255, 256, 8190, 8191, 8192, 8193, 16382, 16383]);
    for t in tgt {
        let hi = 0xC0 | (t >> 8) as u8;
        let lo = t as u8;
        let mut b = header_bytes(&Hd { qc: 1, ..Default::default() });
        b.extend([1, b'k', hi, lo, 0, 1, 0, 1]);
        dec_case(o, &b);
        let mut b = header_bytes(&Hd { qc: 1, ac: 1, ..Default::default() });
        b.extend([1, b'k', 2, b'm', b'n', 0, 0, 1, 0, 1]);
        b.extend([hi, lo, 0, 2, 0, 1, 0, 0, 0, 9, 0, 2, hi, lo]);
        dec_case(o, &b);
    }
    // all types and classes, in questions and records, with data fitting an A record
    let types: Vec<u16> = (0..=260).chain([511, 4096, 32768, 65535]).collect();
    for t in types {
        for c in [1u16, 2, 3, 4, 0, 255, 254, 5, 32769] {
            if c != 1 && !deep && t > 20 && t < 250 {
                continue;
            }
            let mut b = header_bytes(&Hd { qc: 1, ac: 1, ..Default::default() });
            b.extend([1, b'k', 0, 0, 1, 0, 1]);
            b.extend([1, b'k', 0]);
            b.extend(t.to_be_bytes());
            b.extend(c.to_be_bytes());
            b.extend([0, 0, 0, 9, 0, 4, 1, b'b', 0, 0]);
            dec_case(o, &b);
            let mut b = header_bytes(&Hd { qc: 2, ..Default::default() });
            b.extend([1, b'k', 0]);
            b.extend(t.to_be_bytes());
            b.extend(c.to_be_bytes());
            b.extend([1, b'k', 0, 0, 1, 0, 1]);
            dec_case(o, &b);
        }
    }
    // header bits
    for x in 0..=255u8 {
        let mut b = base[0].clone();
        b[2] = x;
        dec_case(o, &b);
        let mut b = base[0].clone();
        b[3] = x;
        dec_case(o, &b);
    }
    // every data length for every type around the right one
    for t in gen::TYPES {
        for len in 0..12u16 {
            for fill in [vec![0u8; 12], vec![1, b'a', 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], vec![2, b'a', b'b', 1, b'c', 0, 1, b'd', 0, 0, 0, 0], vec![0, 1, 1, b'a', 0, 3, 1, 2, 3, 0, 0, 0]] {
                let mut b = header_bytes(&Hd { ac: 2, ..Default::default() });
                b.extend([1, b'k', 0]);
                b.extend(t.to_be_bytes());
                b.extend([0, 1, 0, 0, 0, 9]);
                b.extend(len.to_be_bytes());
                b.extend(&fill[..len as usize]);
                b.extend([1, b'a', 0, 0, 1, 0, 1, 0, 0, 0, 5, 0, 4, 9, 8, 7, 6]);
                dec_case(o, &b);
            }
        }
    }
    // huge counts and lengths
    for (qc, ac) in [(65535u16, 0u16), (0, 65535), (65535, 65535), (2, 0), (0, 2)] {
        let mut b = base[0].clone();
        b[4..6].copy_from_slice(&qc.to_be_bytes());
        b[6..8].copy_from_slice(&ac.to_be_bytes());
        dec_case(o, &b);
    }
    for t in gen::TYPES.iter().chain(&[99u16]) {
        for len in [8191u16, 8192, 8193, 16384, 32767, 65535] {
            for avail in [10usize, 9000] {
                let mut b = header_bytes(&Hd { ac: 1, ..Default::default() });
                b.extend([1, b'k', 0]);
                b.extend(t.to_be_bytes());
                b.extend([0, 1, 0, 0, 0, 9]);
                b.extend(len.to_be_bytes());
                b.extend(std::iter::repeat(3u8).take(avail));
                if avail > 10 && !deep && (len > 8192 || *t > 12) {
                    continue;
                }
                dec_case(o, &b);
            }
        }
    }
    // TXT data of maximal length: strings that run past the declared end
    if deep {
        for over in [0usize, 1, 100] {
            let mut b = header_bytes(&Hd { ac: 1, ..Default::default() });
            b.extend([1, b'k', 0, 0, 16, 0, 1, 0, 0, 0, 9, 255, 255]);
            let mut left = 65535usize;
            while left > 0 {
                let l = left.min(256);
                let n = if l == left { l - 1 + over.min(256 - l) } else { 255 };
                b.push(n as u8);
                b.extend(vec![b'a'; n]);
                left -= l;
            }
            dec_case(o, &b);
        }
    }
    // random damage to random messages
    for _ in 0..n {
        let m = gen::msg(&mut g);
        let mut b = encode(&m, *[Compress::No, Compress::Owners, Compress::All].choose(&mut g).unwrap());
        if b.len() > 400 {
            continue;
        }
        for _ in 0..g.gen_range(1..4) {
            if b.len() < 13 {
                break;
            }
            let p = g.gen_range(2..b.len());
            match g.gen_range(0..6) {
                0 => b[p] = g.gen(),
                1 => b[p] ^= 1 << g.gen_range(0..8),
                2 => {
                    b.remove(p);
                }
                3 => b.insert(p, g.gen()),
                4 => b.truncate(p),
                _ => {
                    let q = g.gen_range(12..b.len()) as u16;
                    b[p] = 0xC0;
                    if p + 1 < b.len() {
                        b[p + 1] = q as u8;
                    }
                }
            }
        }
        dec_case(o, &b);
    }
    for _ in 0..n / 4 {
        let l = g.gen_range(0..60);
        let mut b: Vec<u8> = (0..l).map(|_| *[0u8, 0, 0, 1, 1, 2, 3, b'a', b'b', 192, 12, 63, 64, 255].choose(&mut g).unwrap()).collect();
        for x in b.iter_mut().take(12).skip(2) {
            *x = if g.gen_bool(0.8) { 0 } else { 1 };
        }
        dec_case(o, &b);
    }
}

/// All byte strings of length `len` over a small alphabet as the (possibly compressed)
/// name of a question, followed by type and class.
pub fn run_exhaustive(o: &Out, len: usize) {
    let alpha: [u8; 9] = [0, 1, 2, b'a', b'-', b'.', 192, 12, 14];
    let mut idx = vec![0usize; len];
    loop {
        let mut b = header_bytes(&Hd { qc: 1, ..Default::default() });
        b.extend(idx.iter().map(|&i| alpha[i]));
        b.extend([0, 1, 0, 1]);
        dec_case(o, &b);
        let mut k = 0;
        while k < len {
            idx[k] += 1;
            if idx[k] < alpha.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
        if k == len {
            break;
        }
    }
}

/// Replay messages produced by the specification: {b: bytes} per line.
pub fn run_bytes(o: &Out, path: &str) {
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let b: Vec<u8> = serde_json::from_value(v["b"].clone()).unwrap();
        dec_case(o, &b);
    }
}

fn run_msgs(o: &Out, path: &str) {
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let m: Msg = serde_json::from_value(v["m"].clone()).unwrap();
        enc_case(o, &m);
    }
}

// ------------------------------------------------------------------ C04
#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct Op {
    o: String,
    n: usize,
    by: Vec<u8>,
}

fn arr<const N: usize>(b: &mut BitsBuf) -> Option<Vec<u8>> {
    b.read_bytes::<N>().map(|x| x.to_vec())
}

fn bits_case(o: &Out, start: &[u8], ops: &[Op]) {
    o.case(json!({"start": start, "ops": ops}), || {
        let mut b = if start.is_empty() { BitsBuf::new() } else { BitsBuf::from_raw_bytes(start) };
        let mut steps = vec![];
        for op in ops {
            let r: Option<Vec<u8>> = match op.o.as_str() {
                "read_bits" => b.read_bits(op.n as u8).map(|x| vec![x]),
                "read_u8" => b.read_u8().map(|x| vec![x]),
                "read_u16" => b.read_u16().map(|x| x.to_be_bytes().to_vec()),
                "read_u32" => b.read_u32().map(|x| x.to_be_bytes().to_vec()),
                "read_vec" => b.read_bytes_vec(op.n),
                "read_arr" => match op.n {
                    0 => arr::<0>(&mut b),
                    1 => arr::<1>(&mut b),
                    2 => arr::<2>(&mut b),
                    3 => arr::<3>(&mut b),
                    _ => arr::<4>(&mut b),
                },
                x => {
                    match x {
                        "write_bits" => b.write_bits(op.by[0], op.n as u8),
                        "write_u8" => b.write_u8(op.by[0]),
                        "write_u16" => b.write_u16(u16::from_be_bytes([op.by[0], op.by[1]])),
                        "write_u32" => b.write_u32(u32::from_be_bytes([op.by[0], op.by[1], op.by[2], op.by[3]])),
                        "write_bytes" => b.write_bytes(&op.by),
                        "set_read" => b.set_read_pos(op.n),
                        "set_write" => b.set_write_pos(op.n),
                        "truncate" => b.truncate(op.n),
                        _ => panic!(),
                    }
                    Some(vec![])
                }
            };
            steps.push(json!({"ok": r.is_some(), "by": r.unwrap_or_default(), "rp": b.read_pos(), "wp": b.write_pos(), "ln": b.len()}));
        }
        json!({"ok": true, "steps": steps, "vec": b.into_vec()})
    });
}

fn run_bits_file(o: &Out, path: &str) {
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let start: Vec<u8> = serde_json::from_value(v["start"].clone()).unwrap();
        let ops: Vec<Op> = serde_json::from_value(v["ops"].clone()).unwrap();
        bits_case(o, &start, &ops);
    }
}

fn run_bits(o: &Out, seed: u64, n: usize) {
    let mut g = gen::rng(seed, 4);
    for i in 0..n {
        let start: Vec<u8> = (0..g.gen_range(0..6)).map(|_| g.gen()).collect();
        let mut len = start.len() * 8; // mirrors the length, to choose legal cursor positions
        let mut wp = len;
        let mut ops = vec![];
        for _ in 0..g.gen_range(5..if i % 10 == 0 { 120 } else { 30 }) {
            let k = g.gen_range(0..14);
            let by = |g: &mut gen::R, n: usize| -> Vec<u8> { (0..n).map(|_| *[0u8, 255, 0x80, 1, 0x55, g.gen()].choose(g).unwrap()).collect() };
            let (o, n, b) = match k {
                0 | 1 => ("read_bits", g.gen_range(0..=8), vec![]),
                2 => ("read_u8", 1, vec![]),
                3 => ("read_u16", 2, vec![]),
                4 => ("read_u32", 4, vec![]),
                5 => ("read_vec", g.gen_range(0..7), vec![]),
                6 => ("read_arr", g.gen_range(0..5), vec![]),
                7 | 8 => ("write_bits", g.gen_range(1..=8), by(&mut g, 1)),
                9 => match g.gen_range(0..4) {
                    0 => ("write_u8", 0, by(&mut g, 1)),
                    1 => ("write_u16", 0, by(&mut g, 2)),
                    2 => ("write_u32", 0, by(&mut g, 4)),
                    _ => {
                        let k = g.gen_range(0..6);
                        ("write_bytes", 0, by(&mut g, k))
                    }
                },
                10 | 11 => ("set_read", *[0, len, len / 2, g.gen_range(0..=len)].choose(&mut g).unwrap(), vec![]),
                12 => ("set_write", *[0, len, len / 2, g.gen_range(0..=len)].choose(&mut g).unwrap(), vec![]),
                _ => ("truncate", *[len, len + 3, len.saturating_sub(1), len.saturating_sub(8), g.gen_range(0..=len)].choose(&mut g).unwrap(), vec![]),
            };
            match o {
                "write_bits" => wp += n,
                x if x.starts_with("write") => wp += 8 * b.len(),
                "set_write" => wp = n,
                "truncate" => {
                    len = len.min(n);
                    wp = wp.min(len);
                }
                _ => {}
            }
            len = len.max(wp);
            ops.push(Op { o: o.into(), n, by: b });
        }
        bits_case(o, &start, &ops);
    }
}

/// Buffers of more than 2^16 bits (or bytes), with the cursors around that place.
fn run_bits_big(o: &Out, seed: u64, n: usize) {
    let mut g = gen::rng(seed, 44);
    for i in 0..n {
        let edge = if i % 8 == 7 { 65_536 } else { 8192 };
        let size = edge + *[-3i64, 0, 1, 5, 700].choose(&mut g).unwrap();
        let start: Vec<u8> = (0..size).map(|_| g.gen()).collect();
        let mut len = start.len() * 8;
        let mut wp = len;
        let mut ops = vec![];
        for _ in 0..14 {
            let near = |g: &mut gen::R, len: usize| -> usize { (edge as i64 * 8 + g.gen_range(-40..40)).clamp(0, len as i64) as usize };
            let k = g.gen_range(0..10);
            let (o, n, b): (&str, usize, Vec<u8>) = match k {
                0 => ("set_read", near(&mut g, len), vec![]),
                1 => ("set_write", near(&mut g, len), vec![]),
                2 => ("read_bits", g.gen_range(0..=8), vec![]),
                3 => ("read_u32", 4, vec![]),
                4 => ("read_u16", 2, vec![]),
                5 => ("read_vec", g.gen_range(0..9), vec![]),
                6 => ("write_bits", g.gen_range(1..=8), vec![g.gen()]),
                7 => ("write_u32", 0, (0..4).map(|_| g.gen()).collect()),
                8 => ("write_bytes", 0, (0..g.gen_range(0..9)).map(|_| g.gen()).collect()),
                _ => ("truncate", near(&mut g, len), vec![]),
            };
            match o {
                "write_bits" => wp += n,
                x if x.starts_with("write") => wp += 8 * b.len(),
                "set_write" => wp = n,
                "truncate" => {
                    len = len.min(n);
                    wp = wp.min(len);
                }
                _ => {}
            }
            len = len.max(wp);
            ops.push(Op { o: o.into(), n, by: b });
        }
        // everything can be read in one go
        ops.push(Op { o: "set_read".into(), n: 0, by: vec![] });
        ops.push(Op { o: "read_vec".into(), n: len / 8, by: vec![] });
        ops.push(Op { o: "read_vec".into(), n: 1, by: vec![] });
        bits_case(o, &start, &ops);
    }
}

// ------------------------------------------------------------------ C05
fn hash(n: &dns::Name) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

fn pair(o: &Out, a: &Nm, b: &Nm, subs: &[Nm]) {
    o.case(json!({"k": "pair", "a": a, "b": b, "subs": subs}), || {
        let (x, y) = (name_from(a), name_from(b));
        let mut m = std::collections::HashMap::new();
        m.insert(x.clone(), 1);
        let ss: Vec<dns::Name> = subs.iter().map(name_from).collect();
        json!({"ok": true, "eq": x == y, "hash": hash(&x) == hash(&y), "ab": x.is_in_zone(&y), "ba": y.is_in_zone(&x),
               "map": m.contains_key(&y), "top": x.is_in_zone_root(&y), "only": x.is_only_in_auth_zone(&y, &ss)})
    });
}

fn text(o: &Out, t: &str, legal: bool) {
    o.case(json!({"k": "text", "t": t, "legal": legal}), || json!({"ok": dns::Name::from_string(t).is_ok()}));
}

fn run_names(o: &Out, seed: u64, n: usize, deep: bool) {
    let mut g = gen::rng(seed, 5);
    let labels: &[&str] = if deep { &["a", "A", "b", "ba", "aB", "a-b", "xa"] } else { &["a", "A", "b", "ba", "a-b"] };
    let mut all: Vec<Nm> = vec![vec![]];
    let mut last = all.clone();
    for depth in 0..3 {
        let mut next = vec![];
        for x in &last {
            for l in labels {
                if depth == 2 && !deep && !["a", "ba"].contains(l) {
                    continue;
                }
                let mut y = vec![l.as_bytes().to_vec()];
                y.extend(x.clone());
                next.push(y);
            }
        }
        all.extend(next.clone());
        last = next;
    }
    for a in &all {
        for b in &all {
            if (a.len() == 3 && b.len() == 3) || (deep && a.len() + b.len() > 4) {
                if g.gen_bool(if deep { 0.9 } else { 0.7 }) {
                    continue;
                }
            }
            let subs: Vec<Nm> = (0..g.gen_range(0..3)).map(|_| all.choose(&mut g).unwrap().clone()).collect();
            pair(o, a, b, &subs);
        }
    }
    for _ in 0..n {
        let a = gen::name(&mut g);
        let k = g.gen_range(0..=a.len());
        let mut b: Nm = a[k..].to_vec();
        match g.gen_range(0..6) {
            0 => {}
            1 => b = b.iter().map(|l| l.to_ascii_uppercase()).collect(),
            2 => b = b.iter().map(|l| l.to_ascii_lowercase()).collect(),
            3 if !b.is_empty() => {
                // a look-alike: drop the first character of the zone's first label
                if b[0].len() > 1 && b[0][1] != b'-' {
                    b[0].remove(0);
                }
            }
            4 if !b.is_empty() => {
                let i = g.gen_range(0..b.len());
                let l = b[i].len();
                b[i][l - 1] = if b[i][l - 1] == b'z' { b'y' } else { b'z' };
            }
            _ => b = gen::name(&mut g),
        }
        pair(o, &a, &b, &[b.clone(), a[a.len() / 2..].to_vec()][..g.gen_range(0..3)]);
    }
    for len in 245..=258 {
        // names of `len` octets when encoded, as a sequence of full labels
        let mut s = String::new();
        let mut left = len - 1;
        while left > 0 {
            let mut l = left.min(64);
            if left - l == 1 {
                l -= 1;
            }
            s.push_str(&"a".repeat(l - 1));
            s.push('.');
            left -= l;
        }
        text(o, &s, len <= 255);
    }
    for len in 60..=66 {
        text(o, &format!("{}.", "b".repeat(len)), len <= 63);
        text(o, &format!("x.{}.y.", "b".repeat(len)), len <= 63);
    }
    for (t, l) in [(".", true), ("", false), ("a", false), ("a.", true), (".a.", false), ("a..b.", false), ("a.b", false), ("a-b.c.", true), ("-a.", false), ("a-.", false), ("1.", true), ("..", false), (" .", false), ("a .", false), ("a_b.", false), ("é.", false), ("a.b..", false), ("A.b-1.", true)] {
        text(o, t, l);
    }
    for c in 0u8..128 {
        let ch = c as char;
        if ch == '.' {
            continue;
        }
        text(o, &format!("a{}b.", ch), c.is_ascii_alphanumeric() || c == b'-');
        text(o, &format!("a{}.", ch), c.is_ascii_alphanumeric());
        text(o, &format!("{}a.", ch), c.is_ascii_alphanumeric());
    }
}

fn main() {
    init();
    let (seed, deep) = (seed(), deep());
    let o = Out::new(&arg(2), 10_000);
    match arg(1).as_str() {
        "enc" => run_enc(&o, seed, num(3)),
        "foreign" => run_foreign(&o, seed, num(3)),
        "damaged" => run_damaged(&o, seed, num(3), deep),
        "exhaustive" => run_exhaustive(&o, num(3)),
        "msgs" => run_msgs(&o, &arg(3)),
        "bits-file" => run_bits_file(&o, &arg(3)),
        "bitsbig" => run_bits_big(&o, seed, num(3)),
        "bits" => run_bits(&o, seed, num(3)),
        "names" => run_names(&o, seed, num(3), deep),
        "bytes" => run_bytes(&o, &arg(3)),
        x => panic!("unknown command {}", x),
    }
    o.finish();
}
