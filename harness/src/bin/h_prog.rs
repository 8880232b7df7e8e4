//! The two programs run as processes of their own with generated configurations, and observed
//! over their sockets, their output and (for the resolver) a simulated upstream.
use harness::out::{real_ms, real_sleep, Out};
use harness::srv::query;
use harness::wire::*;
use harness::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// A scenario of ProgGen.
#[derive(Clone, Deserialize, Serialize)]
struct Pr {
    prog: String,
    ua: String, // "p", "q": two addresses; "6": the IPv6 loopback address
    ta: String,
    same: bool, // the same port for both transports
    uth: usize,
    tth: usize,
    uwt: u64,
    trt: u64,
    twt: u64,
    ttl: u32,
    sttl: u32,
    smin: u32,
    ns: usize,
    re: u64,
    cn: usize,
    rt: u64,
    wt: u64,
    level: String,
    silent: bool,
    verbose: bool,
    color: bool,
    broken: String,
}

struct Killer(Child);
impl Drop for Killer {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

// ------------------------------------------------------------------ upstream
/// Simulated name servers on all of 127.0.0.0/8; the queries with the addresses asked.
struct Up {
    stop: Arc<AtomicBool>,
    seen: Arc<Mutex<Vec<([u8; 4], Nm)>>>,
    port: u16,
}
impl Drop for Up {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
    }
}
unsafe fn recv_to(fd: i32, b: &mut [u8], from: &mut libc::sockaddr_in, to: &mut [u8; 4]) -> isize {
    let mut iov = libc::iovec { iov_base: b.as_mut_ptr() as *mut _, iov_len: b.len() };
    let mut c = [0u64; 16];
    let mut m: libc::msghdr = std::mem::zeroed();
    m.msg_name = from as *mut _ as *mut _;
    m.msg_namelen = 16;
    m.msg_iov = &mut iov;
    m.msg_iovlen = 1;
    m.msg_control = c.as_mut_ptr() as *mut _;
    m.msg_controllen = 128;
    let n = libc::recvmsg(fd, &mut m, 0);
    let h = libc::CMSG_FIRSTHDR(&m);
    if n >= 0 && !h.is_null() && (*h).cmsg_type == libc::IP_PKTINFO {
        let p = libc::CMSG_DATA(h) as *const libc::in_pktinfo;
        *to = u32::from_be((*p).ipi_addr.s_addr).to_be_bytes();
    }
    n
}
unsafe fn send_from(fd: i32, b: &[u8], from: [u8; 4], to: &libc::sockaddr_in) {
    let mut iov = libc::iovec { iov_base: b.as_ptr() as *mut _, iov_len: b.len() };
    let mut c = [0u64; 16];
    let mut m: libc::msghdr = std::mem::zeroed();
    m.msg_name = to as *const _ as *mut _;
    m.msg_namelen = 16;
    m.msg_iov = &mut iov;
    m.msg_iovlen = 1;
    m.msg_control = c.as_mut_ptr() as *mut _;
    m.msg_controllen = libc::CMSG_SPACE(std::mem::size_of::<libc::in_pktinfo>() as u32) as usize;
    let h = libc::CMSG_FIRSTHDR(&m);
    (*h).cmsg_level = libc::IPPROTO_IP;
    (*h).cmsg_type = libc::IP_PKTINFO;
    (*h).cmsg_len = libc::CMSG_LEN(std::mem::size_of::<libc::in_pktinfo>() as u32) as usize;
    let p = libc::CMSG_DATA(h) as *mut libc::in_pktinfo;
    (*p).ipi_ifindex = 0;
    (*p).ipi_spec_dst.s_addr = u32::from_be_bytes(from).to_be();
    libc::sendmsg(fd, &m, 0);
}
/// Names "cK.": an alias for "c(K-1).", "c0." an address; everything else is never answered.
fn upstream() -> Up {
    use std::os::fd::AsRawFd;
    let s = UdpSocket::bind(("0.0.0.0", 0)).unwrap();
    let port = s.local_addr().unwrap().port();
    s.set_read_timeout(Some(Duration::from_millis(100))).unwrap();
    let one: libc::c_int = 1;
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_IP, libc::IP_PKTINFO, &one as *const _ as *const _, 4) };
    let (stop, seen) = (Arc::new(AtomicBool::new(false)), Arc::new(Mutex::new(vec![])));
    let (st, se) = (stop.clone(), seen.clone());
    std::thread::spawn(move || {
        let mut b = [0u8; 1000];
        while !st.load(SeqCst) {
            let mut from: libc::sockaddr_in = unsafe { std::mem::zeroed() };
            let mut to = [0; 4];
            let n = unsafe { recv_to(s.as_raw_fd(), &mut b, &mut from, &mut to) };
            if n < 12 {
                continue;
            }
            let Some((id, q)) = world::parse_query(&b[..n as usize]) else { continue };
            se.lock().unwrap().push((to, q.n.clone()));
            let first = q.n.first().cloned().unwrap_or_default();
            if q.n.len() != 1 || first[0].to_ascii_lowercase() != b'c' {
                continue;
            }
            let k: usize = String::from_utf8_lossy(&first[1..]).parse().unwrap_or(0);
            let mut m = Msg::default();
            m.h.id = id;
            m.h.qr = 1;
            m.h.aa = 1;
            m.q.push(q.clone());
            m.an.push(match k {
                0 => world::a(q.n.clone(), 300, [9, 8, 7, 6]),
                _ => world::cn(q.n.clone(), 300, vec![format!("c{}", k - 1).into_bytes()]),
            });
            m.fix_counts();
            unsafe { send_from(s.as_raw_fd(), &encode(&m, Compress::No), to, &from) };
        }
    });
    Up { stop, seen, port }
}

// ------------------------------------------------------------------ clients
fn udp(a: SocketAddr) -> UdpSocket {
    let c = UdpSocket::bind(if a.is_ipv6() { "[::1]:0" } else { "127.0.0.1:0" }).unwrap();
    let _ = c.connect(a);
    c
}
/// The reply to a query sent over UDP.
fn ask_udp(a: SocketAddr, q: &[u8], ms: u64) -> Option<Vec<u8>> {
    let c = udp(a);
    c.send(q).ok()?;
    c.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let mut b = vec![0; 2000];
    let n = c.recv(&mut b).ok()?;
    b.truncate(n);
    Some(b)
}
fn tcp_send(a: SocketAddr, q: &[u8]) -> Option<TcpStream> {
    let mut c = TcpStream::connect_timeout(&a, Duration::from_secs(2)).ok()?;
    let mut x = (q.len() as u16).to_be_bytes().to_vec();
    x.extend(q);
    c.write_all(&x).ok()?;
    Some(c)
}
fn ask_tcp(a: SocketAddr, q: &[u8], ms: u64) -> Option<Vec<u8>> {
    let mut c = tcp_send(a, q)?;
    c.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let mut l = [0; 2];
    c.read_exact(&mut l).ok()?;
    let mut b = vec![0; u16::from_be_bytes(l) as usize];
    c.read_exact(&mut b).ok()?;
    Some(b)
}
/// A client that cannot take in much and does not read.
fn deaf(a: SocketAddr, q: &[u8]) -> Option<TcpStream> {
    use std::os::fd::FromRawFd;
    let SocketAddr::V4(v4) = a else { return None };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0);
        let c = TcpStream::from_raw_fd(fd);
        let small: libc::c_int = 2048;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, &small as *const _ as *const _, 4);
        let mss: libc::c_int = 536;
        libc::setsockopt(fd, libc::IPPROTO_TCP, libc::TCP_MAXSEG, &mss as *const _ as *const _, 4);
        let mut sa: libc::sockaddr_in = std::mem::zeroed();
        sa.sin_family = libc::AF_INET as u16;
        sa.sin_port = v4.port().to_be();
        sa.sin_addr.s_addr = u32::from_be_bytes(v4.ip().octets()).to_be();
        if libc::connect(fd, &sa as *const _ as *const _, 16) != 0 {
            return None;
        }
        let mut x = (q.len() as u16).to_be_bytes().to_vec();
        x.extend(q);
        (&c).write_all(&x).ok()?;
        Some(c)
    }
}
fn ms_of<T>(f: impl FnOnce() -> Option<T>) -> i64 {
    let t0 = real_ms();
    match f() {
        Some(_) => (real_ms() - t0) as i64,
        None => -1,
    }
}

// ------------------------------------------------------------------ scenarios
fn ip(s: &str, k: usize) -> IpAddr {
    match s {
        "6" => "::1".parse().unwrap(),
        "p" => IpAddr::from([127, 77, (k % 250) as u8, 1]),
        _ => IpAddr::from([127, 77, (k % 250) as u8, 2]),
    }
}
fn free(ip: IpAddr) -> u16 {
    for _ in 0..1000 {
        let p = srv::free_port();
        if UdpSocket::bind((ip, p)).is_ok() && TcpListener::bind((ip, p)).is_ok() {
            return p;
        }
    }
    0
}

fn config(s: &Pr, dir: &str, ua: SocketAddr, ta: SocketAddr) -> Value {
    let mut c = json!({
        "log_level": s.level,
        "udp_server": {"address": ua.ip().to_string(), "port": ua.port(), "write_timeout": s.uwt, "threads": s.uth},
        "tcp_server": {"address": ta.ip().to_string(), "port": ta.port(), "read_timeout": s.trt, "write_timeout": s.twt, "threads": s.tth},
    });
    if s.prog == "ns" {
        c["zone"] = json!({"zone": "x.", "file": format!("{}/zone", dir), "starting_ttl": s.ttl,
            "sub_zones": [{"zone": "s.x.", "file": format!("{}/sub", dir), "starting_ttl": s.sttl, "min_ttl": s.smin}]});
    } else {
        c["resolver"] = json!({"max_ns_queried": s.ns, "max_ns_retries": s.re, "max_cname_redir": s.cn, "read_timeout": s.rt, "write_timeout": s.wt,
            "cache_conf": {"clean_period": 60, "entries_cleaned": 1000},
            "trace_conf": {"silent": s.silent, "verbose": s.verbose, "color": s.color}});
    }
    match &s.broken[..] {
        "threads" => c["udp_server"]["threads"] = json!(0),
        "timeout" => c["tcp_server"]["read_timeout"] = json!(0),
        "name" => match &s.prog[..] {
            "ns" => c["zone"]["zone"] = json!("x"),
            _ => c["resolver"]["max_cname_redir"] = json!(0),
        },
        _ => {}
    }
    c
}

fn zone_files(s: &Pr, dir: &str) {
    let mut z = "x. IN SOA n.x. m.x. 1 3600 600 86400 0\nx. IN NS n.x.\nn.x. IN A 1.1.1.1\nh.x. IN A 2.2.2.2\n".to_string();
    for k in 0..250 {
        z += &format!("b.x. IN TXT {}{}\n", k, "b".repeat(230));
    }
    let mut sub = "s.x. IN NS n.s.x.\nn.s.x. IN A 3.3.3.3\n".to_string();
    match &s.broken[..] {
        "zonebad" => z += "h.x. IN A 1.2.3\n",
        "subbad" => sub += "s.x. IN NS n..x.\n",
        _ => {}
    }
    if s.broken != "zonegone" {
        std::fs::write(format!("{}/zone", dir), z).unwrap();
    }
    if s.broken != "subgone" {
        std::fs::write(format!("{}/sub", dir), sub).unwrap();
    }
}

fn run(s: &Pr, k: usize, bins: &str, shim: &str, root: &str) -> Value {
    let dir = format!("{}/p{}", root, k);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let (uip, tip) = (ip(&s.ua, k), ip(&s.ta, k));
    if UdpSocket::bind((uip, 0)).is_err() || UdpSocket::bind((tip, 0)).is_err() {
        return json!({"ok": true, "run": false});
    }
    let up = free(uip);
    let ua = SocketAddr::from((uip, up));
    let ta = SocketAddr::from((tip, if s.same { up } else { free(tip) }));
    let mut taken = (None, None);
    match &s.broken[..] {
        "takenu" => taken.0 = UdpSocket::bind(ua).ok(),
        "takent" => taken.1 = TcpListener::bind(ta).ok(),
        _ => {}
    }
    zone_files(s, &dir);
    let conf = format!("{}/conf.json", dir);
    let mut text = serde_json::to_string_pretty(&config(s, &dir, ua, ta)).unwrap();
    if s.broken == "cut" {
        text.truncate(text.len() - 2);
    }
    if s.broken != "gone" {
        std::fs::write(&conf, text).unwrap();
    }
    let args: Vec<&str> = match &s.broken[..] {
        "args0" => vec![],
        "args2" => vec![&conf, &conf],
        _ => vec![&conf],
    };
    let upst = upstream();
    let logf = format!("{}/sock", dir);
    let outp = format!("{}/out", dir);
    let o = std::fs::File::create(&outp).unwrap();
    let mut p = Killer(
        Command::new(format!("{}/{}", bins, if s.prog == "ns" { "nameserver" } else { "resolver" }))
            .args(args)
            .env("LD_PRELOAD", shim)
            .env("SIM_PORT", upst.port.to_string())
            .env("SIM_LOG", &logf)
            .env("SIM_UDP", ua.port().to_string())
            .env("SIM_TCP", ta.port().to_string())
            .env("CLICOLOR_FORCE", "1")
            .stdin(Stdio::null())
            .stdout(o.try_clone().unwrap())
            .stderr(o)
            .spawn()
            .unwrap(),
    );
    let zero: Nm = vec![b"c0".to_vec()];
    let probe = query(77, &if s.prog == "ns" { nm("h.x.") } else { zero.clone() }, 1);
    // wait until both servers answer, or the program ends
    let t0 = real_ms();
    let (mut uok, mut tok, mut exit) = (false, false, -1i64);
    while !(uok && tok) && real_ms() - t0 < if s.broken.is_empty() { 12000 } else { 8000 } {
        if let Ok(Some(x)) = p.0.try_wait() {
            exit = x.code().unwrap_or(1000) as i64;
            break;
        }
        if !s.broken.is_empty() {
            real_sleep(20);
            continue;
        }
        uok = uok || ask_udp(ua, &probe, 200).is_some();
        tok = tok || ask_tcp(ta, &probe, 300).is_some();
        real_sleep(10);
    }
    drop(taken);
    let mut r = json!({"ok": true, "run": true, "exit": exit, "uok": uok, "tok": tok});
    let full = exit == -1 && uok && tok && s.broken.is_empty();
    r["full"] = json!(full);
    if full {
        // who listens where
        r["cross"] = json!(ua != ta && (ask_udp(ta, &probe, 300).is_some() || ask_tcp(ua, &probe, 300).is_some()));
        if s.prog == "ns" {
            let ttl = |n: &str, t: u16| -> Vec<i64> {
                match ask_udp(ua, &query(5, &nm(n), t), 2000).and_then(|b| ariadne_dns::shared::dns::Message::decode_from_bytes(&b).ok()) {
                    Some(m) => {
                        let m = conv::msg_to(&m);
                        m.an.iter().chain(&m.ns).chain(&m.ar).map(|r| r.ttl_u32() as i64).collect()
                    }
                    None => vec![-1],
                }
            };
            r["ttls"] = json!({"h": ttl("h.x.", 1), "a": ttl("x.", 2), "s": ttl("w.s.x.", 1)});
        } else {
            let chain = |k: usize| -> Value {
                let rc = ask_udp(ua, &query(5, &vec![format!("c{}", k).into_bytes()], 1), 8000);
                json!({"k": k, "rc": rc.as_ref().map(|b| (b[3] & 15) as i64).unwrap_or(-1), "an": rc.map(|b| u16::from_be_bytes([b[6], b[7]]) as i64).unwrap_or(-1)})
            };
            let mut v = vec![];
            for k in (0..=s.cn + 2).rev() {
                v.push(chain(k));
            }
            r["chains"] = json!(v);
            // lookups that have to wait for silent servers
            let d = s.ns as u64 * s.re * s.rt * 1000;
            let mut slow = vec![];
            let mut quick = vec![];
            for (round, n) in [s.uth - 1, s.uth].into_iter().enumerate() {
                let c = udp(ua);
                let t0 = real_ms();
                for j in 0..n {
                    c.send(&query(100 + j as u16, &vec![format!("s{}x{}", round, j).into_bytes()], 1)).unwrap();
                }
                let lag = real_ms() - t0;
                let cq = udp(ua);
                cq.set_read_timeout(Some(Duration::from_millis(3 * d + 8000))).unwrap();
                let mut b = [0; 600];
                let q = ms_of(|| {
                    cq.send(&probe).ok()?;
                    cq.recv(&mut b).ok()
                });
                quick.push(json!({"busy": n, "lag": lag, "ms": q}));
                let mut left = n;
                c.set_read_timeout(Some(Duration::from_millis(3 * d + 8000))).unwrap();
                let mut got: BTreeMap<usize, (i64, i64)> = BTreeMap::new();
                while left > 0 {
                    let Ok(_) = c.recv(&mut b) else { break };
                    let id = u16::from_be_bytes([b[0], b[1]]) as usize;
                    got.insert(id.wrapping_sub(100), ((real_ms() - t0) as i64, (b[3] & 15) as i64));
                    left -= 1;
                }
                for j in 0..n {
                    let name = vec![format!("s{}x{}", round, j).into_bytes()];
                    let mut per: BTreeMap<[u8; 4], usize> = BTreeMap::new();
                    for (a, q) in upst.seen.lock().unwrap().iter() {
                        if lower(q) == name {
                            *per.entry(*a).or_default() += 1;
                        }
                    }
                    let (ms, rc) = got.get(&j).copied().unwrap_or((-1, -1));
                    slow.push(json!({"ms": ms, "rc": rc, "per": per.values().collect::<Vec<_>>()}));
                }
            }
            r["slow"] = json!(slow);
            r["quick"] = json!(quick);
        }
        // TCP clients that send nothing
        let mut tcp = vec![];
        let mut closes = vec![];
        for n in [s.tth - 1, s.tth] {
            let t0 = real_ms();
            let cs: Vec<(u64, TcpStream)> = (0..n).filter_map(|_| TcpStream::connect(ta).ok().map(|c| (real_ms(), c))).collect();
            let lag = real_ms() - t0;
            let q = ms_of(|| ask_tcp(ta, &probe, s.trt * 3000 + 8000));
            tcp.push(json!({"busy": n, "lag": lag, "ms": q}));
            for (t, mut c) in cs {
                c.set_read_timeout(Some(Duration::from_millis(s.trt * 3000 + 8000))).unwrap();
                let mut b = [0; 10];
                // closed, possibly after a reply
                closes.push(match c.read(&mut b) {
                    Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => -1,
                    _ => (real_ms() - t) as i64,
                });
            }
        }
        r["tcp"] = json!(tcp);
        r["closes"] = json!(closes);
        // TCP clients that do not take their replies
        if s.prog == "ns" && ta.is_ipv4() {
            let big = query(9, &nm("b.x."), 16);
            let t0 = real_ms();
            let cs: Vec<_> = (0..s.tth).filter_map(|_| deaf(ta, &big)).collect();
            real_sleep(50); // the requests have arrived
            let lag = real_ms() - t0;
            let q = ms_of(|| ask_tcp(ta, &probe, s.twt * 3000 + 10000));
            r["deaf"] = json!({"busy": cs.len(), "lag": lag, "ms": q});
            drop(cs);
        }
        exit = match p.0.try_wait() {
            Ok(Some(x)) => x.code().unwrap_or(1000) as i64,
            _ => -1,
        };
        r["exit"] = json!(exit);
    }
    drop(p);
    let text = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).to_string();
    let plain = strip(&text);
    let mut lv = BTreeSet::new();
    for l in plain.lines() {
        for w in ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"] {
            if l.starts_with("20") && l.get(..60.min(l.len())).is_some_and(|h| h.split_whitespace().any(|x| x == w)) {
                lv.insert(w);
            }
        }
    }
    // a trace: what follows its title up to the next entry of the log
    let (mut traces, mut esc, mut inside, mut tl) = (0, false, false, 0);
    for l in text.lines() {
        if strip(l).starts_with("20") {
            inside = l.contains("Lookup trace:");
            traces += inside as usize;
        } else if inside {
            esc |= l.contains('\u{1b}');
            tl += !l.trim().is_empty() as usize;
        }
    }
    r["levels"] = json!(lv);
    r["traces"] = json!(traces);
    r["tlines"] = json!(tl);
    r["raw"] = json!(plain.lines().any(|l| l.trim_start().starts_with("Header: ")));
    r["esc"] = json!(esc);
    let mut sock: BTreeSet<(String, String, i64)> = BTreeSet::new();
    for l in std::fs::read_to_string(&logf).unwrap_or_default().lines() {
        let w: Vec<&str> = l.split(' ').collect();
        sock.insert((w[0].into(), w[1].into(), w[2].parse().unwrap()));
    }
    r["sock"] = json!(sock.into_iter().map(|(c, d, m)| json!({"c": c, "d": d, "ms": m})).collect::<Vec<_>>());
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn main() {
    init();
    let (outp, genf, bins, shim, par) = (arg(2), arg(3), arg(4), arg(5), num(6).max(1));
    let root = std::env::current_dir().unwrap().join("prog.d").display().to_string();
    std::fs::create_dir_all(&root).unwrap();
    let ss: Vec<Pr> = std::io::BufReader::new(std::fs::File::open(genf).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let out = Out::new(&outp, 1 << 40);
    let next = AtomicUsize::new(0);
    let (t0, limit) = (real_ms(), if deep() { 2_400_000 } else { 250_000 });
    std::thread::scope(|sc| {
        for _ in 0..par {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, SeqCst);
                if k >= ss.len() {
                    return;
                }
                let r = match real_ms() - t0 > limit {
                    true => json!({"ok": false, "why": "earlier scenarios took too long"}),
                    false => run(&ss[k], k, &bins, &shim, &root),
                };
                out.line(&json!({"i": k, "s": ss[k], "r": r}));
            });
        }
    });
    let _ = std::fs::remove_dir_all(&root);
    out.finish();
}
