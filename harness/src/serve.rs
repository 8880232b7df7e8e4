//! Requests of every kind sent to a running server over UDP and TCP.
use crate::gen;
use crate::out::*;
use crate::reqs;
use crate::srv::*;
use crate::wire::*;
use rand::prelude::*;
use serde_json::json;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering::SeqCst;

pub struct Sock {
    c: std::net::UdpSocket,
    n: u64,
    zone: Nm,
}

impl Sock {
    pub fn new(s: &Server, zone: &Nm) -> Sock {
        Sock { c: s.client(), n: 0, zone: zone.clone() }
    }

    /// Send b and then a proper query; whatever comes before the answer to the latter are the
    /// replies to b (the server has one worker).  False if the server no longer answers.
    pub fn udp_case(&mut self, o: &Out, zi: usize, b: &[u8]) -> bool {
        self.n += 1;
        let me = crate::world::under(&format!("sentinel{}-{}", std::process::id(), self.n), &self.zone);
        let sq = query((self.n % 65536) as u16, &me, 1);
        let c = &self.c;
        let r = o.case(json!({"z": zi, "b": b, "via": "udp"}), || {
            if c.send(b).is_err() || c.send(&sq).is_err() {
                return json!({"ok": false, "why": "send"});
            }
            let qs = &sq[12..];
            let (v, alive) = collect(c, 6000, |d| d.len() >= 12 + qs.len() && &d[12..12 + qs.len()] == qs);
            if !alive {
                return json!({"ok": false, "why": "the server no longer answers", "rs": v});
            }
            json!({"ok": true, "rs": v})
        });
        r["ok"] == true
    }
}

pub fn tcp_case(o: &Out, zi: usize, s: &Server, b: &[u8], cuts: &[usize]) -> bool {
    let r = o.case(json!({"z": zi, "b": b, "via": "tcp"}), || match s.tcp(b, cuts).and_then(|raw| frames(&raw)) {
        Some(v) => json!({"ok": true, "rs": v}),
        None => json!({"ok": false, "why": "connection"}),
    });
    r["ok"] == true
}


/// How many of the server's next calls of a kind fail, and with what.
pub struct Fault {
    pub left: std::sync::atomic::AtomicI32,
    pub err: std::sync::atomic::AtomicI32,
}
impl Fault {
    pub const fn new() -> Fault {
        Fault { left: std::sync::atomic::AtomicI32::new(0), err: std::sync::atomic::AtomicI32::new(0) }
    }
    pub fn set(&self, n: i32, e: i32) {
        self.err.store(e, SeqCst);
        self.left.store(n, SeqCst);
    }
    pub fn hit(&self) -> Option<i32> {
        if self.left.load(SeqCst) <= 0 || self.left.fetch_sub(1, SeqCst) <= 0 {
            return None;
        }
        Some(self.err.load(SeqCst))
    }
    fn wait(&self) {
        let t0 = crate::out::real_ms();
        while self.left.load(SeqCst) > 0 && crate::out::real_ms() - t0 < 1000 {
            crate::out::real_sleep(1);
        }
        self.left.store(0, SeqCst);
    }
}
pub struct Faults {
    pub accept: Fault,
    pub recv: Fault,
    pub dup: Fault,
}

/// Something that goes wrong and must leave no trace in what follows: clients that go away
/// or never finish, and calls of the server that fail now and then.
fn disturb(g: &mut gen::R, s: &Server, f: Option<&Faults>, b: &[u8]) {
    use std::net::{Shutdown, TcpStream};
    let mut x = (b.len() as u16).to_be_bytes().to_vec();
    x.extend(b);
    let kind = g.gen_range(0..if f.is_some() { 9 } else { 5 });
    let conn = || {
        let c = TcpStream::connect(s.addr).ok()?;
        c.set_nodelay(true).ok()?;
        Some(c)
    };
    let reset = |c: &TcpStream| unsafe {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    };
    match kind {
        // connected and gone, in good order or not
        0 | 1 => {
            for _ in 0..g.gen_range(1..4) {
                if let Some(c) = conn() {
                    if kind == 1 {
                        reset(&c);
                    }
                }
            }
        }
        // part of a request, then gone
        2 | 3 => {
            if let Some(mut c) = conn() {
                let k = g.gen_range(0..x.len());
                c.write_all(&x[..k]).ok();
                if kind == 3 {
                    reset(&c);
                } else {
                    c.shutdown(Shutdown::Write).ok();
                    let mut r = vec![];
                    c.set_read_timeout(Some(std::time::Duration::from_secs(8))).ok();
                    c.read_to_end(&mut r).ok();
                }
            }
        }
        // a request, but nobody to take the reply
        4 => {
            if let Some(mut c) = conn() {
                c.write_all(&x).ok();
                reset(&c);
            }
            s.client().send(b).ok();
        }
        5 | 6 => {
            let f = f.unwrap();
            let e = [libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::EINTR, libc::EPROTO, libc::EAGAIN];
            f.accept.set(g.gen_range(1..4), e[g.gen_range(0..e.len())]);
            // the call under way ends with this connection, the next ones fail
            drop(conn());
            f.accept.wait();
        }
        7 => {
            let f = f.unwrap();
            let e = [libc::ECONNREFUSED, libc::ENOBUFS, libc::ENOMEM, libc::EINTR, libc::EAGAIN, libc::EHOSTUNREACH];
            f.recv.set(g.gen_range(1..4), e[g.gen_range(0..e.len())]);
            s.client().send(&[0]).ok();
            f.recv.wait();
        }
        // the socket cannot be duplicated: that one request may get no reply
        _ => {
            let f = f.unwrap();
            f.dup.set(1, libc::EMFILE);
            if g.gen_bool(0.5) {
                s.client().send(b).ok();
                f.dup.wait();
            } else if let Some(mut c) = conn() {
                c.write_all(&x).ok();
                let mut r = vec![];
                c.set_read_timeout(Some(std::time::Duration::from_secs(8))).ok();
                c.read_to_end(&mut r).ok();
                f.dup.left.store(0, SeqCst);
            }
        }
    }
}

/// N01, N02: a long history of requests of every kind for a server with one worker, then many
/// requests at once for a server with several.  `start` starts a server with so many workers.
pub fn history(o: &Out, g: &mut gen::R, zi: usize, n: usize, zone: &Nm, names: &[Nm], sweep: bool, start: &dyn Fn(usize, u64) -> Server, faults: Option<&Faults>) {
    let mut s = start(1, 5000);
    let mut c = Sock::new(&s, zone);
    let mut v = if sweep { reqs::sweep(g, names) } else { vec![] };
    for _ in 0..n {
        v.push(reqs::random(g, names));
    }
    let mut dead = 0;
    for (k, b) in v.iter().enumerate() {
        if k % 9 == 5 {
            disturb(g, &s, faults, b);
        }
        let mut alive = c.udp_case(o, zi, b);
        if k % 4 == 0 {
            let cuts: Vec<usize> = match k % 12 {
                0 => vec![],
                4 => vec![1, 2, 3],
                _ => vec![2, 14],
            };
            alive &= tcp_case(o, zi, &s, b, &cuts);
        }
        if !alive {
            dead += 1;
            if dead > 4 {
                break;
            }
            s = start(1, 5000);
            c = Sock::new(&s, zone);
        }
    }
    // long messages, over TCP only
    for big in [600usize, 4000, 20000] {
        let mut m = Msg::default();
        m.h.id = big as u16;
        m.q.push(Qu { n: zone.to_vec(), t: 6, c: 1 });
        m.ar.push(Rr { n: vec![], t: 99, c: 1, ttl: [0; 4], d: RData::default(), raw: Some(vec![5; big]) });
        m.fix_counts();
        let b = encode(&m, Compress::No);
        tcp_case(o, zi, &s, &b, &[700]);
        tcp_case(o, zi, &s, &b[..b.len() - 1], &[]);
    }
    // more clients than workers that never finish their requests
    let stalled = start(2, 300);
    let whole = query(77, zone, 6);
    for round in 0..3 {
        let mut idle = vec![];
        for k in 0..5 {
            if let Ok(mut c) = std::net::TcpStream::connect(stalled.addr) {
                let mut x = (whole.len() as u16).to_be_bytes().to_vec();
                x.extend(&whole);
                c.write_all(&x[..[0, 1, 2, 9, 20][(k + round) % 5]]).ok();
                idle.push(c);
            }
        }
        tcp_case(o, zi, &stalled, &whole, &[]);
    }
    // several workers, many requests under way at once, told apart by their ids
    let s = start(4, 5000);
    for _ in 0..3 {
        let socks: Vec<_> = (0..3).map(|_| s.client()).collect();
        let mut bs: Vec<Vec<u8>> = vec![];
        for id in 0..60u16 {
            let mut b = reqs::random(g, names);
            if b.len() < 2 {
                b = query(0, zone, 6);
            }
            b[0..2].copy_from_slice(&(id + 1000).to_be_bytes());
            bs.push(b);
        }
        for (k, b) in bs.iter().enumerate() {
            socks[k % 3].send(b).unwrap();
        }
        let mut got: Vec<Vec<Vec<u8>>> = vec![vec![]; 60];
        for (k, c) in socks.iter().enumerate() {
            let readable = |b: &Vec<u8>| b.len() >= 12 && (b[2] >> 3) & 15 < 3 && b[3] & 15 < 6;
            let mine = bs.iter().enumerate().filter(|(i, b)| i % 3 == k && readable(b)).count();
            let mut v = vec![];
            while v.len() < mine {
                let (_, any) = collect(c, 3000, |d| {
                    v.push(d.to_vec());
                    true
                });
                if !any {
                    break;
                }
            }
            v.extend(collect(c, 60, |_| false).0);
            for d in v {
                if d.len() >= 2 {
                    let id = u16::from_be_bytes([d[0], d[1]]) as usize;
                    if (1000..1060).contains(&id) && (id - 1000) % 3 == k {
                        got[id - 1000].push(d);
                    }
                }
            }
        }
        for (k, b) in bs.iter().enumerate() {
            o.case(json!({"z": zi, "b": b, "via": "burst"}), || json!({"ok": true, "rs": got[k]}));
        }
    }
}
