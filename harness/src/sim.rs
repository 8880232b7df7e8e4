//! A simulated internet and clock under the code being run.  The C library functions the
//! standard library uses for sockets and clocks are defined here, in the binary that includes
//! this file: traffic to port 53 goes to a responder, time is virtual while it is switched on,
//! everything else reaches the kernel.  Each of these calls is also a point where another
//! thread may be scheduled.
use libc::{c_int, c_void, size_t, sockaddr, sockaddr_in, socklen_t, ssize_t, timespec};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

// ------------------------------------------------------------------ clock
static VIRTUAL: AtomicBool = AtomicBool::new(false);
static NOW_US: AtomicU64 = AtomicU64::new(0);
const BASE_S: u64 = 1_000_000;

/// Virtual time in milliseconds since the start of the history.
pub fn now_ms() -> u64 {
    NOW_US.load(SeqCst) / 1000
}
pub fn advance_ms(ms: u64) {
    NOW_US.fetch_add(ms * 1000, SeqCst);
}
pub fn set_us(us: u64) {
    NOW_US.store(us, SeqCst);
}
pub fn virtual_time(on: bool) {
    VIRTUAL.store(on, SeqCst);
    NOW_US.store(0, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    if VIRTUAL.load(SeqCst) && matches!(id, 0 | 1 | 4 | 5 | 6 | 7) {
        point(P::Clock);
        let us = NOW_US.load(SeqCst);
        (*ts).tv_sec = (BASE_S + us / 1_000_000) as i64;
        (*ts).tv_nsec = (us % 1_000_000 * 1000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}

fn real_us_sleep(us: u64) {
    let ts = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000 * 1000) as i64 };
    unsafe { libc::syscall(libc::SYS_nanosleep, &ts, 0usize) };
}

unsafe fn vsleep(us: u64) {
    let t = NOW_US.load(SeqCst) + us;
    while VIRTUAL.load(SeqCst) && NOW_US.load(SeqCst) < t {
        point(P::Clock);
        real_us_sleep(200);
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if VIRTUAL.load(SeqCst) {
        vsleep((*a).tv_sec as u64 * 1_000_000 + (*a).tv_nsec as u64 / 1000);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, a, b) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if VIRTUAL.load(SeqCst) {
        let us = (*a).tv_sec as u64 * 1_000_000 + (*a).tv_nsec as u64 / 1000;
        vsleep(if flags & 1 == 1 { us.saturating_sub(BASE_S * 1_000_000 + NOW_US.load(SeqCst)) } else { us });
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, id, flags, a, b) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}

// ------------------------------------------------------------------ network
pub struct Query<'a> {
    pub l: u32,
    pub ip: [u8; 4],
    pub b: &'a [u8],
}
/// Datagrams to deliver, each after a delay in milliseconds; or the error of the send call.
pub enum Reply {
    Data(Vec<(u64, Vec<u8>)>),
    Errno(c_int),
}
pub type Responder = Box<dyn FnMut(&Query) -> Reply + Send>;

struct Fd {
    l: u32,
    ip: [u8; 4],
    timeout_ms: u64,
    queue: VecDeque<(u64, Vec<u8>)>,
    connected: Option<[u8; 4]>,
    used: bool,
}
struct Sim {
    resp: Option<Responder>,
    fds: HashMap<c_int, Fd>,
    evs: Vec<Value>,
    sends: usize,
    limit: usize,
}
static SIM: Mutex<Option<Sim>> = Mutex::new(None);
thread_local! { static L: Cell<u32> = const { Cell::new(0) }; }

/// The lookup the calling thread works on, 0 for none.
pub fn set_lookup(l: u32) {
    L.with(|x| x.set(l));
}
fn lookup() -> u32 {
    L.try_with(|x| x.get()).unwrap_or(0)
}

/// Begin a history with at most `limit` datagrams sent.
pub fn begin(limit: usize, resp: Responder) {
    *SIM.lock().unwrap() = Some(Sim { resp: Some(resp), fds: HashMap::new(), evs: vec![], sends: 0, limit });
}
pub fn event(v: Value) {
    if let Some(s) = SIM.lock().unwrap().as_mut() {
        s.evs.push(v);
    }
}
/// Allow further datagrams to be sent.
pub fn set_limit(more: usize) {
    if let Some(s) = SIM.lock().unwrap().as_mut() {
        s.limit = s.sends + more;
    }
}
pub fn sends() -> usize {
    SIM.lock().unwrap().as_ref().map_or(0, |s| s.sends)
}
pub fn end() -> Vec<Value> {
    match SIM.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(s) => s.evs,
        None => vec![],
    }
}
pub fn replace(resp: Responder) {
    if let Some(s) = SIM.lock().unwrap().as_mut() {
        s.resp = Some(resp);
    }
}

unsafe fn errno(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}
unsafe fn dest(a: *const sockaddr, n: socklen_t) -> Option<[u8; 4]> {
    if a.is_null() || (n as usize) < std::mem::size_of::<sockaddr_in>() || (*a).sa_family as c_int != libc::AF_INET {
        return None;
    }
    let s = &*(a as *const sockaddr_in);
    if u16::from_be(s.sin_port) != 53 {
        return None;
    }
    Some(u32::from_be(s.sin_addr.s_addr).to_be_bytes())
}
fn fd_entry(s: &mut Sim, fd: c_int) -> &mut Fd {
    s.fds.entry(fd).or_insert(Fd { l: 0, ip: [0; 4], timeout_ms: 0, queue: VecDeque::new(), connected: None, used: false })
}

unsafe fn sim_send(fd: c_int, b: &[u8], ip: [u8; 4]) -> isize {
    point(P::Net);
    let mut g = SIM.lock().unwrap();
    let s = match g.as_mut() {
        Some(s) => s,
        None => return errno(libc::ENETUNREACH),
    };
    let l = lookup();
    s.sends += 1;
    if s.sends > s.limit {
        if s.sends == s.limit + 1 {
            s.evs.push(json!({"k": "over", "l": l, "at": now_ms()}));
        }
        return errno(libc::ENETUNREACH);
    }
    s.evs.push(json!({"k": "send", "l": l, "ip": ip, "b": b, "at": now_ms()}));
    let mut resp = s.resp.take();
    drop(g);
    // another thread may be using it
    while resp.is_none() {
        real_us_sleep(50);
        match SIM.lock().unwrap().as_mut() {
            Some(s) => resp = s.resp.take(),
            None => break,
        }
    }
    let r = match resp.as_mut() {
        Some(f) => f(&Query { l, ip, b }),
        None => Reply::Errno(libc::EAGAIN),
    };
    let mut g = SIM.lock().unwrap();
    let s = match g.as_mut() {
        Some(s) => s,
        None => return errno(libc::ENETUNREACH),
    };
    if s.resp.is_none() {
        s.resp = resp;
    }
    match r {
        Reply::Errno(e) => {
            s.evs.push(json!({"k": "recv", "l": l, "got": false, "b": [], "at": now_ms()}));
            return errno(e);
        }
        Reply::Data(v) => {
            let f = fd_entry(s, fd);
            f.l = l;
            f.ip = ip;
            f.used = true;
            f.queue.extend(v);
        }
    }
    b.len() as isize
}

/// None: not one of ours.
unsafe fn sim_recv(fd: c_int, buf: *mut u8, len: usize, addr: *mut sockaddr, alen: *mut socklen_t, peek: bool) -> Option<isize> {
    {
        let mut g = SIM.lock().unwrap();
        match g.as_mut().and_then(|s| s.fds.get(&fd)) {
            Some(f) if f.used => {}
            _ => return None,
        }
    }
    point(P::Net);
    let mut g = SIM.lock().unwrap();
    let s = g.as_mut()?;
    let f = s.fds.get_mut(&fd)?;
    let (l, t) = (f.l, f.timeout_ms);
    let wait = f.queue.front().map(|d| d.0);
    match wait {
        Some(w) if t == 0 || w < t => {
            let d = if peek { f.queue.front().cloned().unwrap() } else { f.queue.pop_front().unwrap() };
            advance_ms(w);
            let n = d.1.len().min(len);
            std::ptr::copy_nonoverlapping(d.1.as_ptr(), buf, n);
            if !addr.is_null() && !alen.is_null() {
                let a: &mut sockaddr_in = &mut *(addr as *mut sockaddr_in);
                a.sin_family = libc::AF_INET as u16;
                a.sin_port = 53u16.to_be();
                a.sin_addr.s_addr = u32::from_be_bytes(f.ip).to_be();
                *alen = std::mem::size_of::<sockaddr_in>() as socklen_t;
            }
            // what the program gets to see of it
            s.evs.push(json!({"k": "recv", "l": l, "got": true, "b": &d.1[..n.min(512)], "whole": d.1.len() == n, "at": now_ms()}));
            Some(n as isize)
        }
        _ => {
            if let Some(x) = f.queue.front_mut() {
                x.0 = x.0.saturating_sub(t);
            }
            advance_ms(if t == 0 { 3_600_000 } else { t });
            s.evs.push(json!({"k": "recv", "l": l, "got": false, "b": [], "at": now_ms()}));
            Some(errno(libc::EAGAIN))
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, al: socklen_t) -> ssize_t {
    if let Some(ip) = dest(a, al) {
        return sim_send(fd, std::slice::from_raw_parts(b as *const u8, n), ip);
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, fl, a, al as usize) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    let c = match SIM.lock() {
        Ok(mut g) => g.as_mut().and_then(|s| s.fds.get(&fd)).and_then(|f| f.connected),
        Err(_) => None,
    };
    if let Some(ip) = c {
        return sim_send(fd, std::slice::from_raw_parts(b as *const u8, n), ip);
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, fl, 0usize, 0usize) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, al: *mut socklen_t) -> ssize_t {
    match sim_recv(fd, b as *mut u8, n, a, al, fl & libc::MSG_PEEK != 0) {
        Some(r) => r,
        None => libc::syscall(libc::SYS_recvfrom, fd, b, n, fl, a, al) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    match sim_recv(fd, b as *mut u8, n, std::ptr::null_mut(), std::ptr::null_mut(), fl & libc::MSG_PEEK != 0) {
        Some(r) => r,
        None => libc::syscall(libc::SYS_recvfrom, fd, b, n, fl, 0usize, 0usize) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, al: socklen_t) -> c_int {
    if let Some(ip) = dest(a, al) {
        let mut ty: c_int = 0;
        let mut n = std::mem::size_of::<c_int>() as socklen_t;
        libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut ty as *mut c_int as *mut c_void, &mut n);
        if ty != libc::SOCK_DGRAM {
            return errno(libc::ECONNREFUSED) as c_int;
        }
        if let Some(s) = SIM.lock().unwrap().as_mut() {
            fd_entry(s, fd).connected = Some(ip);
        }
        return 0;
    }
    libc::syscall(libc::SYS_connect, fd, a, al as usize) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, n: socklen_t) -> c_int {
    if level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO && n as usize >= std::mem::size_of::<libc::timeval>() {
        let t = &*(v as *const libc::timeval);
        if let Ok(mut g) = SIM.lock() {
            if let Some(s) = g.as_mut() {
                let ms = t.tv_sec as u64 * 1000 + (t.tv_usec as u64).div_ceil(1000);
                fd_entry(s, fd).timeout_ms = ms;
            }
        }
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, name, v, n as usize) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Ok(mut g) = SIM.lock() {
        if let Some(s) = g.as_mut() {
            s.fds.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

// ------------------------------------------------------------------ scheduling
#[derive(Clone, Copy, PartialEq)]
pub enum P {
    Clock,
    Net,
    User,
}
struct Sch {
    on: bool,
    turn: usize,
    alive: Vec<bool>,
    stuck: Vec<bool>,
    tid: Vec<i64>,
    waiting: Vec<bool>,
    rnd: u64,
    p_clock: u64, // of 100
    progress: u64,
    forced: u64,
}
static SCH: Mutex<Sch> =
    Mutex::new(Sch { on: false, turn: 0, alive: vec![], stuck: vec![], tid: vec![], waiting: vec![], rnd: 1, p_clock: 30, progress: 0, forced: 0 });
static CV: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn next_rnd(s: &mut Sch) -> u64 {
    s.rnd ^= s.rnd << 13;
    s.rnd ^= s.rnd >> 7;
    s.rnd ^= s.rnd << 17;
    s.rnd >> 11
}
fn pick(s: &mut Sch) {
    let c: Vec<usize> = (0..s.alive.len()).filter(|&i| s.alive[i] && !s.stuck[i]).collect();
    if !c.is_empty() {
        let r = next_rnd(s) as usize;
        s.turn = c[r % c.len()];
    }
}

/// A point at which the scheduler may let another thread run.
pub fn point(p: P) {
    let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if me == usize::MAX {
        return;
    }
    let mut s = SCH.lock().unwrap();
    if !s.on {
        return;
    }
    s.progress += 1;
    s.stuck[me] = false;
    let t = s.turn;
    if t < s.alive.len() && !s.alive[t] {
        pick(&mut s);
        CV.notify_all();
    }
    if s.turn == me {
        if p == P::Clock {
            let (r, k) = (next_rnd(&mut s) % 100, s.p_clock);
            if r >= k {
                return;
            }
        }
        pick(&mut s);
        CV.notify_all();
    }
    s.waiting[me] = true;
    while s.on && s.turn != me {
        s = CV.wait(s).unwrap();
    }
    s.waiting[me] = false;
}

/// Is the thread of this process blocked?
fn asleep(tid: i64) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) {
        Ok(s) => s.rsplit(')').next().map_or(true, |r| r.trim_start().starts_with('S')),
        Err(_) => true,
    }
}

/// Run the jobs one at a time, switching between them at random points.
pub fn interleave(seed: u64, p_clock: u64, jobs: Vec<Box<dyn FnOnce() + Send + 'static>>) -> u64 {
    let n = jobs.len();
    {
        let mut s = SCH.lock().unwrap();
        *s = Sch {
            on: true,
            turn: usize::MAX,
            alive: vec![true; n],
            stuck: vec![false; n],
            tid: vec![0; n],
            waiting: vec![false; n],
            rnd: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            p_clock,
            progress: 0,
            forced: 0,
        };
    }
    let hs: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(i, j)| {
            std::thread::spawn(move || {
                ME.with(|m| m.set(i));
                SCH.lock().unwrap().tid[i] = unsafe { libc::syscall(libc::SYS_gettid) };
                point(P::User);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                let mut s = SCH.lock().unwrap();
                s.alive[i] = false;
                s.progress += 1;
                ME.with(|m| m.set(usize::MAX));
                if s.turn == i {
                    pick(&mut s);
                }
                CV.notify_all();
            })
        })
        .collect();
    // wait until all are at their first point
    loop {
        let mut s = SCH.lock().unwrap();
        if s.waiting.iter().all(|w| *w) {
            pick(&mut s);
            CV.notify_all();
            break;
        }
        drop(s);
        real_us_sleep(50);
    }
    // watch for a thread that waits for something a suspended thread holds
    let mut last = (0, 0);
    loop {
        real_us_sleep(300);
        let mut s = SCH.lock().unwrap();
        if s.alive.iter().all(|a| !*a) {
            break;
        }
        if s.progress == last.0 {
            last.1 += 1;
        } else {
            last = (s.progress, 0);
        }
        if last.1 >= 2 {
            let t = s.turn;
            if t >= n || !s.alive[t] {
                pick(&mut s);
                CV.notify_all();
            } else if s.alive[t] && !s.waiting[t] && asleep(s.tid[t]) {
                s.stuck[t] = true;
                s.forced += 1;
                if (0..n).any(|i| s.alive[i] && !s.stuck[i]) {
                    pick(&mut s);
                }
                CV.notify_all();
            }
            last.1 = 0;
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let mut s = SCH.lock().unwrap();
    s.on = false;
    s.forced
}
