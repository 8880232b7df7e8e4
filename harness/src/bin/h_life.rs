//! Drives the real worker pool (scripts with jobs that block until released, and free runs)
//! and the real servers through start-up failures and shutdown.  For the latter, every
//! scenario runs in a process of its own, in which binding a port can be delayed and made to
//! fail, and so can the creation of a thread.
use ariadne_dns::shared::net::*;
use ariadne_dns::shared::thread_pool::ThreadPool;
use harness::out::{real_ms, real_sleep, Out};
use harness::*;
use libc::{c_int, c_void, sockaddr, sockaddr_in, sockaddr_in6, socklen_t};
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------ failing calls
/// By (port, is a stream socket): milliseconds to wait, error to report (0: none).
static BINDS: Mutex<Option<HashMap<(u16, bool), (u64, c_int)>>> = Mutex::new(None);
static BOUND: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, n: socklen_t) -> c_int {
    let port = match (*a).sa_family as c_int {
        libc::AF_INET => u16::from_be((*(a as *const sockaddr_in)).sin_port),
        libc::AF_INET6 => u16::from_be((*(a as *const sockaddr_in6)).sin6_port),
        _ => 0,
    };
    let mut ty: c_int = 0;
    let mut l = 4 as socklen_t;
    libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut ty as *mut c_int as *mut c_void, &mut l);
    let p = BINDS.lock().unwrap().as_ref().and_then(|m| m.get(&(port, ty == libc::SOCK_STREAM)).copied());
    if let Some((ms, e)) = p {
        real_sleep(ms);
        BOUND.fetch_add(1, SeqCst);
        if e != 0 {
            *libc::__errno_location() = e;
            return -1;
        }
    }
    let r = libc::syscall(libc::SYS_bind, fd, a, n);
    r as c_int
}

static THREADS_LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    x: *mut c_void,
) -> c_int {
    if THREADS_LEFT.fetch_sub(1, SeqCst) == 1 {
        return libc::EAGAIN;
    }
    let real: Create = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
    real(t, a, f, x)
}

// ------------------------------------------------------------------ idle time
// Nothing happens for an hour: while IDLE is on, every wait with a time limit ends at once
// and the clock jumps to the end of the wait.
static IDLE: AtomicBool = AtomicBool::new(false);
static AHEAD_NS: AtomicI64 = AtomicI64::new(0);
static UNTIL_NS: AtomicI64 = AtomicI64::new(0);

unsafe fn raw(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    r
}
fn ns(t: &libc::timespec) -> i64 {
    t.tv_sec.saturating_mul(1_000_000_000).saturating_add(t.tv_nsec)
}
fn ts(n: i64) -> libc::timespec {
    libc::timespec { tv_sec: n / 1_000_000_000, tv_nsec: n % 1_000_000_000 }
}
unsafe fn real_ns(id: usize) -> i64 {
    let mut t = ts(0);
    raw(libc::SYS_clock_gettime, id, &mut t as *mut _ as usize, 0, 0, 0, 0);
    ns(&t)
}
unsafe fn ret(r: isize) -> libc::c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r as libc::c_long
}
/// If time is flying: jump ahead by so much, or to the end of the idle time.
fn fly(left: i64) -> bool {
    if !IDLE.load(SeqCst) {
        return false;
    }
    let a = AHEAD_NS.load(SeqCst);
    let stop = UNTIL_NS.load(SeqCst);
    let to = a.saturating_add(left);
    if to > stop {
        IDLE.store(false, SeqCst);
        AHEAD_NS.store(stop, SeqCst);
        return false;
    }
    AHEAD_NS.store(to, SeqCst);
    true
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if n != libc::SYS_futex || d == 0 || !(op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) {
        return ret(raw(n, a, b, c, d, e, f));
    }
    // in slices, so that time can begin to fly during the wait
    let id = if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 { 0 } else { 1 };
    let given = ns(&*(d as *const libc::timespec));
    let end = if op == libc::FUTEX_WAIT { (real_ns(id) + AHEAD_NS.load(SeqCst)).saturating_add(given) } else { given };
    loop {
        let left = end - (real_ns(id) + AHEAD_NS.load(SeqCst));
        if left <= 0 || fly(left) {
            return ret(-(libc::ETIMEDOUT as isize));
        }
        let t = ts(left.min(300_000));
        let r = raw(n, a, ((b as c_int & libc::FUTEX_PRIVATE_FLAG) | libc::FUTEX_WAIT) as usize, c, &t as *const _ as usize, 0, 0);
        if r != -(libc::ETIMEDOUT as isize) {
            return ret(r);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = raw(libc::SYS_clock_gettime, id as usize, t as usize, 0, 0, 0, 0);
    if r == 0 && matches!(id, 0 | 1 | 4 | 5 | 6 | 7) {
        *t = ts(ns(&*t) + AHEAD_NS.load(SeqCst));
    }
    ret(r) as c_int
}
unsafe fn sleep_until(id: usize, end: i64) {
    loop {
        let left = end - (real_ns(id) + AHEAD_NS.load(SeqCst));
        if left <= 0 || fly(left) {
            return;
        }
        let t = ts(left.min(300_000));
        raw(libc::SYS_nanosleep, &t as *const _ as usize, 0, 0, 0, 0, 0);
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, _b: *mut libc::timespec) -> c_int {
    sleep_until(1, (real_ns(1) + AHEAD_NS.load(SeqCst)).saturating_add(ns(&*a)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, a: *const libc::timespec, _b: *mut libc::timespec) -> c_int {
    let id = id as usize;
    sleep_until(id, if flags & 1 == 1 { ns(&*a) } else { (real_ns(id) + AHEAD_NS.load(SeqCst)).saturating_add(ns(&*a)) });
    0
}
fn idle() {
    UNTIL_NS.store(AHEAD_NS.load(SeqCst) + 3_600_000_000_000, SeqCst);
    IDLE.store(true, SeqCst);
    real_sleep(3);
    IDLE.store(false, SeqCst);
    AHEAD_NS.store(UNTIL_NS.load(SeqCst), SeqCst);
    real_sleep(1);
}

// ------------------------------------------------------------------ pool
#[derive(Deserialize)]
struct Step {
    s: String,
    j: usize,
    kind: String,
    run: Vec<usize>,
}
#[derive(Deserialize)]
struct Script {
    n: usize,
    steps: Vec<Step>,
}

#[derive(Default)]
struct Sh {
    evs: Vec<Value>,
    running: BTreeSet<usize>,
    released: BTreeSet<usize>,
    dropped: bool,
}
#[derive(Default)]
struct P {
    sh: Mutex<Sh>,
    cv: Condvar,
}
impl P {
    fn ev(&self, k: &str, j: usize) {
        self.sh.lock().unwrap().evs.push(json!({"k": k, "j": j}));
    }
    fn job(self: &Arc<P>, j: usize, kind: &str) -> impl FnOnce() + Send + 'static {
        let (p, kind) = (self.clone(), kind.to_string());
        move || {
            let mut g = p.sh.lock().unwrap();
            g.evs.push(json!({"k": "start", "j": j}));
            g.running.insert(j);
            p.cv.notify_all();
            if kind.starts_with("gate") {
                while !g.released.contains(&j) {
                    g = p.cv.wait(g).unwrap();
                }
            }
            if kind == "spin" {
                drop(g);
                for _ in 0..(j * 7919) % 300 {
                    std::hint::spin_loop();
                }
                g = p.sh.lock().unwrap();
            }
            g.evs.push(json!({"k": "end", "j": j}));
            g.running.remove(&j);
            p.cv.notify_all();
            drop(g);
            if kind == "gatep" || kind == "panic" {
                match j % 3 {
                    0 => std::panic::resume_unwind(Box::new(j)),
                    1 => panic!("job {}", j),
                    _ => {
                        let v: Vec<u8> = vec![];
                        std::hint::black_box(v[j]);
                    }
                }
            }
        }
    }
    /// Wait until exactly these jobs run.
    fn settle(&self, run: &[usize], all: bool) -> bool {
        let want: BTreeSet<usize> = run.iter().copied().collect();
        let t0 = real_ms();
        let mut g = self.sh.lock().unwrap();
        let started = |g: &Sh| g.evs.iter().filter(|e| e["k"] == "start").count();
        let handed = |g: &Sh| g.evs.iter().filter(|e| e["k"] == "call").count();
        loop {
            if g.running == want && (!all || started(&g) == handed(&g)) {
                break;
            }
            if real_ms() - t0 > 5000 {
                break;
            }
            g = self.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
        }
        let ok = g.running == want;
        g.evs.push(json!({"k": "settled", "run": run}));
        ok
    }
}

fn wait_dropped(p: &Arc<P>) -> bool {
    let t0 = real_ms();
    let mut g = p.sh.lock().unwrap();
    while !g.dropped && real_ms() - t0 < 10_000 {
        g = p.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
    }
    g.dropped
}

fn close(p: &Arc<P>, pool: ThreadPool) {
    p.ev("drop", 0);
    let p2 = p.clone();
    std::thread::spawn(move || {
        drop(pool);
        let mut g = p2.sh.lock().unwrap();
        g.evs.push(json!({"k": "dropped", "j": 0}));
        g.dropped = true;
        p2.cv.notify_all();
    });
}

/// After this many failures the rest is not run: they take long.
static FAILED: AtomicUsize = AtomicUsize::new(0);
fn enough() -> bool {
    FAILED.load(SeqCst) >= 6
}

fn script(out: &Out, s: &Script) {
    out.case(json!({"n": s.n}), || {
        let p = Arc::new(P::default());
        let mut pool = Some(ThreadPool::new(s.n, "x"));
        let mut handed = vec![];
        for st in &s.steps {
            match &st.s[..] {
                "sub" => {
                    p.ev("call", st.j);
                    pool.as_ref().unwrap().execute(p.job(st.j, &st.kind));
                    p.ev("ret", st.j);
                    handed.push(st.j);
                }
                "rel" => {
                    p.sh.lock().unwrap().released.insert(st.j);
                    p.cv.notify_all();
                }
                "idle" => idle(),
                _ => close(&p, pool.take().unwrap()),
            }
            // with all workers free nothing is left waiting
            if !p.settle(&st.run, st.run.len() < s.n) {
                FAILED.fetch_add(1, SeqCst);
                break;
            }
        }
        if let Some(pool) = pool.take() {
            close(&p, pool);
        }
        p.sh.lock().unwrap().released.extend(handed);
        p.cv.notify_all();
        if !wait_dropped(&p) {
            FAILED.fetch_add(1, SeqCst);
        }
        p.ev("finish", 0);
        let g = p.sh.lock().unwrap();
        json!({"ok": true, "evs": g.evs})
    });
}

/// Many jobs wait while all workers are busy; the order in which they start is kept.
fn flood(out: &Out, n: usize, m: usize) {
    out.case(json!({"n": n, "m": m}), || {
        let pool = ThreadPool::new(n, "x");
        let gate = Arc::new((Mutex::new((0, false)), Condvar::new()));
        for _ in 0..n {
            let gate = gate.clone();
            pool.execute(move || {
                let mut g = gate.0.lock().unwrap();
                g.0 += 1;
                gate.1.notify_all();
                while !g.1 {
                    g = gate.1.wait(g).unwrap();
                }
            });
        }
        let t0 = real_ms();
        let mut g = gate.0.lock().unwrap();
        while g.0 < n && real_ms() - t0 < 5000 {
            g = gate.1.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
        }
        let busy = g.0;
        drop(g);
        let order = Arc::new(Mutex::new(vec![]));
        let ended = Arc::new(AtomicUsize::new(0));
        let hand = |j: usize| {
            let (order, ended) = (order.clone(), ended.clone());
            pool.execute(move || {
                order.lock().unwrap().push(j);
                ended.fetch_add(1, SeqCst);
                if j % 1000 == 0 {
                    panic!("job {}", j);
                }
            })
        };
        // whether or not a job can be handed over now, the workers must get on at some time
        let done = Arc::new(AtomicBool::new(false));
        let (gate2, done2) = (gate.clone(), done.clone());
        let h = std::thread::spawn(move || {
            let t0 = real_ms();
            while !done2.load(SeqCst) && real_ms() - t0 < 3000 {
                real_sleep(1);
            }
            gate2.0.lock().unwrap().1 = true;
            gate2.1.notify_all();
        });
        (1..=m).for_each(hand);
        done.store(true, SeqCst);
        h.join().unwrap();
        let before = ended.load(SeqCst);
        drop(pool);
        let order = order.lock().unwrap().clone();
        json!({"ok": true, "busy": busy, "before": before, "order": order, "ended": ended.load(SeqCst)})
    });
}

/// Several threads hand over jobs while the pool works; sets of jobs that meet each other.
fn free(out: &Out, i: u64) {
    let mut g = StdRng::seed_from_u64(seed() * 100_000 + i);
    let n = g.gen_range(1..=6);
    let subs = g.gen_range(1..=4);
    let per = g.gen_range(3..=14);
    let meet = g.gen_bool(0.6);
    let fail = *[0.0, 0.2, 0.7].choose(&mut g).unwrap();
    let plan: Vec<Vec<&str>> = (0..subs)
        .map(|_| (0..per).map(|_| if g.gen_bool(fail) { "panic" } else { *["quick", "spin"].choose(&mut g).unwrap() }).collect())
        .collect();
    out.case(json!({"n": n}), || {
        let p = Arc::new(P::default());
        let pool = Arc::new(ThreadPool::new(n, "x"));
        let hs: Vec<_> = plan
            .into_iter()
            .enumerate()
            .map(|(s, ks)| {
                let (p, pool) = (p.clone(), pool.clone());
                std::thread::spawn(move || {
                    for (x, k) in ks.iter().enumerate() {
                        let j = 1 + s * 100 + x;
                        p.ev("call", j);
                        pool.execute(p.job(j, k));
                        p.ev("ret", j);
                    }
                    if s == 0 && meet {
                        // as many jobs as workers, each of which waits for all of them
                        let met = Arc::new((Mutex::new(0), Condvar::new()));
                        for x in 0..n {
                            let j = 1000 + x;
                            p.ev("call", j);
                            let (met, p2) = (met.clone(), p.clone());
                            pool.execute(move || {
                                p2.ev("start", j);
                                let mut g = met.0.lock().unwrap();
                                *g += 1;
                                met.1.notify_all();
                                let t0 = real_ms();
                                while *g < n && real_ms() - t0 < 6000 {
                                    g = met.1.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                                }
                                let ok = *g == n;
                                drop(g);
                                if ok {
                                    p2.ev("end", j);
                                }
                            });
                            p.ev("ret", j);
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                return json!({"ok": false, "why": "panic"});
            }
        }
        close(&p, Arc::try_unwrap(pool).ok().unwrap());
        if !wait_dropped(&p) {
            FAILED.fetch_add(1, SeqCst);
        }
        p.ev("finish", 0);
        let g = p.sh.lock().unwrap();
        json!({"ok": true, "evs": g.evs})
    });
}

// ------------------------------------------------------------------ servers
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sc {
    v6: bool,
    any: bool,      // listen on the wildcard address
    same: bool,     // one port number for both
    u: [u64; 2],    // [fails, delay]
    t: [u64; 2],    // 2 as first number: the port is taken by a program that does not answer
    thr: i64,       // the thr-th thread that is created fails
    req: String,    // requests being handled: none, short, long
    pool: usize,
}

/// Answers with an empty reply; an id with its top bit set takes as long as its low bits say.
struct Hd(Arc<AtomicU64>);
impl DnsHandler for Hd {
    fn handle_request<R: DnsRead, W: DnsWrite>(&self, req: R, wr: W) {
        if let DnsReadResult::FullMessage(m) = req.read() {
            let id = conv::msg_to(&m).h.id;
            if id & 0x8000 != 0 {
                self.0.fetch_add(1, SeqCst);
                real_sleep((id & 0x7fff) as u64);
            }
            let mut a = conv::msg_to(&m);
            a.h.qr = 1;
            let _ = wr.reply(conv::msg_from(&a));
        }
    }
}
fn query(id: u16) -> Vec<u8> {
    srv::query(id, &vec![b"x".to_vec()], 1)
}
fn udp_ok(to: SocketAddr, id: u16, ms: u64) -> bool {
    let local = if to.is_ipv6() { "[::1]:0" } else { "127.0.0.1:0" };
    let c = match UdpSocket::bind(local) {
        Ok(c) => c,
        Err(_) => return false,
    };
    if c.connect(to).is_err() || c.send(&query(id)).is_err() {
        return false;
    }
    c.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let mut b = [0; 600];
    matches!(c.recv(&mut b), Ok(n) if n >= 12 && b[0] == (id >> 8) as u8 && b[1] == id as u8)
}
fn tcp_ok(to: SocketAddr, id: u16, ms: u64) -> bool {
    let Ok(mut c) = TcpStream::connect_timeout(&to, Duration::from_millis(ms)) else { return false };
    c.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let q = query(id);
    let mut b = (q.len() as u16).to_be_bytes().to_vec();
    b.extend(q);
    if c.write_all(&b).is_err() {
        return false;
    }
    let mut h = [0; 14];
    c.read_exact(&mut h).is_ok() && h[2] == (id >> 8) as u8 && h[3] == id as u8
}

fn one(sc: &Sc, base: u16) -> Value {
    let lo = if sc.v6 { "::1" } else { "127.0.0.1" };
    let addr = match (sc.any, sc.v6) {
        (true, true) => "::",
        (true, false) => "0.0.0.0",
        _ => lo,
    };
    // ports of its own for every scenario being run
    let mut ports = (base..base + 390).filter(|&p| UdpSocket::bind(("::", p)).is_ok() && TcpListener::bind(("::", p)).is_ok());
    let up = ports.next().unwrap();
    let tp = if sc.same { up } else { ports.next().unwrap() };
    let at = |p: u16| SocketAddr::new(lo.parse().unwrap(), p);
    let mut m = HashMap::new();
    let hang = sc.t[0] == 2;
    m.insert((up, false), (sc.u[1], if sc.u[0] == 1 { libc::EADDRINUSE } else { 0 }));
    if !hang {
        m.insert((tp, true), (sc.t[1], if sc.t[0] == 1 { libc::EADDRNOTAVAIL } else { 0 }));
    }
    // a listener with a full queue: connecting to it takes minutes to fail
    let mut keep = vec![];
    let _l = if hang {
        let l = TcpListener::bind((addr, tp)).unwrap();
        unsafe {
            use std::os::fd::AsRawFd;
            libc::listen(l.as_raw_fd(), 0);
        }
        for _ in 0..3 {
            if let Ok(c) = TcpStream::connect_timeout(&at(tp), Duration::from_millis(100)) {
                keep.push(c);
            }
        }
        Some(l)
    } else {
        None
    };
    *BINDS.lock().unwrap() = Some(m);
    let slow = Arc::new(AtomicU64::new(0));
    let w = Duration::from_secs(5);
    let (u, t) = (
        UdpParams { address: addr.into(), port: up, write_timeout: w, threads: sc.pool },
        TcpParams { address: addr.into(), port: tp, write_timeout: w, read_timeout: w, threads: sc.pool },
    );
    let h = Arc::new(Hd(slow.clone()));
    let ret = Arc::new(AtomicU64::new(0));
    let died = Arc::new(AtomicBool::new(false));
    let go = Arc::new(AtomicBool::new(false));
    let (r2, g2, d2) = (ret.clone(), go.clone(), died.clone());
    let t0 = real_ms();
    std::thread::spawn(move || {
        while !g2.load(SeqCst) {
            real_sleep(1);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| start_servers(h, u, t)));
        d2.store(r.is_err(), SeqCst);
        r2.store(real_ms(), SeqCst);
    });
    // requests that are being handled while things happen
    let mut hs = vec![];
    if sc.req != "none" {
        let d = if sc.req == "short" { 1200u16 } else { 7000 };
        for tcp in [false, true] {
            for k in 0..sc.pool - 1 {
                let (to, ret, go) = (at(if tcp { tp } else { up }), ret.clone(), go.clone());
                hs.push(std::thread::spawn(move || {
                    while !go.load(SeqCst) {
                        real_sleep(1);
                    }
                    real_sleep(15);
                    let t0 = real_ms();
                    while real_ms() - t0 < 2000 && ret.load(SeqCst) == 0 {
                        let id = 0x8000 | (d + k as u16);
                        let ms = d as u64 + 4000;
                        if if tcp { tcp_ok(to, id, ms) } else { udp_ok(to, id, ms) } {
                            return true;
                        }
                        real_sleep(40);
                    }
                    false
                }));
            }
        }
    }
    if sc.thr > 0 {
        THREADS_LEFT.store(sc.thr, SeqCst);
    }
    let start = real_ms();
    go.store(true, SeqCst);
    // ask both, until the servers end or long enough
    let fails = sc.u[0] != 0 || sc.t[0] != 0 || sc.thr > 0;
    let last = [sc.u, sc.t].iter().filter(|x| x[0] != 0).map(|x| x[1]).max().unwrap_or(0);
    // nothing is sent around the moment of a failure and after it: it could do the waking up
    let first = [sc.u, sc.t].iter().filter(|x| x[0] != 0).map(|x| x[1]).min().unwrap_or(0);
    let watch = if sc.thr > 0 { 300 } else if fails { first.saturating_sub(100) } else { 900 + sc.u[1].max(sc.t[1]) };
    let (mut us, mut ts, mut both) = (0, 0, 0);
    let mut id = 1;
    while real_ms() - start < watch && ret.load(SeqCst) == 0 {
        id += 2;
        let a = udp_ok(at(up), id, 300);
        let b = !hang && tcp_ok(at(tp), id, 300);
        us += a as u32;
        ts += b as u32;
        both += (a && b) as u32;
        real_sleep(10);
    }
    if sc.thr == 0 && !fails {
        return json!({"ok": true, "ret": if ret.load(SeqCst) == 0 { -1 } else { (ret.load(SeqCst) - start) as i64 }, "died": false, "us": us, "ts": ts, "both": both, "ua": false, "ta": false});
    }
    if sc.thr > 0 && both >= 5 {
        // whatever failed, both are up
        return json!({"ok": true, "ret": -1, "died": false, "us": us, "ts": ts, "both": both, "ua": false, "ta": false});
    }
    while ret.load(SeqCst) == 0 && real_ms() - start < last + 14_000 {
        real_sleep(5);
    }
    let r = ret.load(SeqCst);
    let _ = t0;
    // afterwards both are down, as soon as the requests being handled are done; nothing is sent
    // before their ports are free, as it could wake up a server that was forgotten
    *BINDS.lock().unwrap() = None;
    let t1 = real_ms();
    let (mut ua, mut ta) = (true, !hang);
    while r != 0 && (ua || ta) && real_ms() - t1 < 9000 {
        ua = ua && UdpSocket::bind((addr, up)).is_err();
        ta = ta && TcpListener::bind((addr, tp)).is_err();
        real_sleep(20);
    }
    ua = ua || udp_ok(at(up), 5, 250);
    ta = ta || !hang && tcp_ok(at(tp), 5, 250);
    json!({"ok": true, "ret": if r == 0 { -1 } else { (r - start) as i64 }, "died": died.load(SeqCst), "us": us, "ts": ts, "both": both, "ua": r != 0 && ua, "ta": r != 0 && ta})
}

fn life(outp: &str, gen: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(outp).unwrap());
    let scs: Vec<Sc> = std::io::BufReader::new(std::fs::File::open(gen).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let me = std::env::current_exe().unwrap();
    let next = AtomicUsize::new(0);
    let res = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..10 {
            let (scs, next, me, res) = (&scs, &next, &me, &res);
            s.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= scs.len() {
                    return;
                }
                let o = std::process::Command::new(me).arg("one").arg("-").arg(serde_json::to_string(&scs[i]).unwrap()).arg((12_000 + w * 800 + i % 2 * 400).to_string()).stderr(std::process::Stdio::null()).output().unwrap();
                let r: Value = serde_json::from_slice(&o.stdout).unwrap_or(json!({"ok": false, "why": "abort"}));
                let mut c = serde_json::to_value(&scs[i]).unwrap();
                c["i"] = json!(i);
                c["r"] = r;
                res.lock().unwrap().push(c);
            });
        }
    });
    for c in res.into_inner().unwrap() {
        writeln!(f, "{}", c).unwrap();
    }
    f.flush().unwrap();
}

fn main() {
    init();
    match &arg(1)[..] {
        "life" => {
            life(&arg(2), &arg(3));
        }
        "one" => {
            let sc: Sc = serde_json::from_str(&arg(3)).unwrap();
            println!("{}", one(&sc, num(4) as u16));
        }
        "pool" => {
            let out = Out::new(&arg(2), 60_000);
            for l in std::io::BufReader::new(std::fs::File::open(arg(3)).unwrap()).lines() {
                if !enough() {
                    script(&out, &serde_json::from_str(&l.unwrap()).unwrap());
                }
            }
            out.finish();
        }
        "flood" => {
            let out = Out::new(&arg(2), 120_000);
            for n in [1, 2, 4] {
                flood(&out, n, num(3));
            }
            out.finish();
        }
        "free" => {
            let out = Out::new(&arg(2), 60_000);
            (0..num(3)).take_while(|_| !enough()).for_each(|i| free(&out, i as u64));
            out.finish();
        }
        _ => panic!("unknown command"),
    }
    std::io::stdout().flush().unwrap();
    unsafe { libc::_exit(0) };
}
