//! Drives the real cache: sequential histories, histories under a controlled scheduler, and
//! truly parallel ones, all under a simulated clock; and the cleaning routine.
#[path = "../sim.rs"]
#[allow(dead_code)]
mod sim;
use ariadne_dns::resolver::*;
use harness::out::{real_ms, real_sleep, Out};
use harness::*;
use rand::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::BufRead;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

static SPIN: AtomicBool = AtomicBool::new(false);
fn busy() {
    sim::point(sim::P::User);
    if SPIN.load(SeqCst) {
        for _ in 0..thread_rng().gen_range(0..60) {
            std::hint::spin_loop();
        }
    }
}

#[derive(Clone, Copy, Eq, Debug)]
struct Key(usize);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        busy();
        self.0 == o.0
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        busy();
        self.0.hash(h)
    }
}

/// How many copies of every value of the current case exist.
static ALIVE: Mutex<(usize, BTreeMap<usize, usize>)> = Mutex::new((0, BTreeMap::new()));
struct Val(usize, usize);
impl Val {
    fn new(v: usize) -> Val {
        let mut g = ALIVE.lock().unwrap();
        *g.1.entry(v).or_insert(0) += 1;
        Val(v, g.0)
    }
    fn become_(&mut self, v: usize) {
        *self = Val::new(v);
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        busy();
        Val::new(self.0)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        let mut g = ALIVE.lock().unwrap();
        if g.0 == self.1 {
            let n = g.1.get_mut(&self.0).unwrap();
            *n -= 1;
            if *n == 0 {
                g.1.remove(&self.0);
            }
        }
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}#", self.0)
    }
}
fn mem() -> Vec<usize> {
    ALIVE.lock().unwrap().1.keys().copied().collect()
}
fn forget() {
    let mut g = ALIVE.lock().unwrap();
    *g = (g.0 + 1, BTreeMap::new());
}

#[derive(Clone, Deserialize)]
struct Op {
    op: String,
    key: usize,
    ttl: u64,
    v: usize,
}

type C = Cache<Key, Val>;
struct Rec {
    evs: Mutex<Vec<Value>>,
    base: Instant,
}
impl Rec {
    fn new() -> Rec {
        Rec { evs: Mutex::new(vec![]), base: Instant::now() }
    }
    fn put(&self, v: Value) {
        self.evs.lock().unwrap().push(v);
    }
    fn tick(&self, ms: u64) {
        let mut g = self.evs.lock().unwrap();
        sim::advance_ms(ms);
        g.push(json!({"k": "tick", "ms": ms}));
    }
    fn run(&self, c: &C, t: usize, o: &Op) {
        if o.op == "tick" {
            self.tick(o.ttl);
            return;
        }
        self.put(json!({"k": "call", "t": t, "op": o.op, "key": o.key, "ttl": o.ttl, "v": o.v}));
        let k = Key(o.key);
        let at = |i: Instant| i.saturating_duration_since(self.base).as_millis() as u64;
        let r = match &o.op[..] {
            "set" => c.set(k, Duration::from_millis(o.ttl), Val::new(o.v)).map(|(e, v)| (at(e), v.0)),
            "get" => c.get_clone(&k).map(|(e, v)| (at(e), v.0)),
            "rem" => c.remove(&k).map(|(e, v)| (at(e), v.0)),
            "onf" => {
                let mut r = None;
                let mut runs = 0;
                let f = c.on_found(&k, |e, v| {
                    runs += 1;
                    r = Some((at(*e), v.0));
                    v.become_(o.v);
                });
                // the answer has to tell whether the function was run
                match (f, runs) {
                    (true, 1) => r,
                    (false, 0) => None,
                    _ => Some((0, 999_999)),
                }
            }
            "clean" => {
                c.clean();
                None
            }
            _ => {
                let s = format!("{:?}", c);
                let ids: Vec<usize> = s.split('#').skip(1).step_by(2).filter_map(|x| x.parse().ok()).collect();
                self.put(json!({"k": "ret", "t": t, "ids": ids}));
                return;
            }
        };
        let (e, v) = r.unwrap_or((0, 0));
        self.put(json!({"k": "ret", "t": t, "f": r.is_some(), "e": e, "v": v}));
    }
    /// The same operation on every key of a block of n, which have to fare alike.
    fn run_block(&self, c: &C, n: usize, o: &Op) {
        if ["tick", "clean", "dump"].contains(&&o.op[..]) {
            return self.run(c, 1, o);
        }
        let mut last = None;
        for k in 0..n {
            let r = Rec { evs: Mutex::new(vec![]), base: self.base };
            r.run(c, 1, &op(&o.op, o.key * 1_000_000 + k, o.ttl, o.v));
            let ret = r.evs.lock().unwrap().pop().unwrap();
            if last.get_or_insert(ret.clone()) != &ret {
                last = Some(json!({"k": "ret", "t": 1, "f": true, "e": 0, "v": 999_998}));
                break;
            }
        }
        self.put(json!({"k": "call", "t": 1, "op": o.op, "key": o.key, "ttl": o.ttl, "v": o.v}));
        self.put(last.unwrap());
    }
    fn mem(&self) {
        self.put(json!({"k": "mem", "ids": mem()}));
    }
    fn take(&self) -> Value {
        json!({"ok": true, "evs": *self.evs.lock().unwrap()})
    }
}

fn op(op: &str, key: usize, ttl: u64, v: usize) -> Op {
    Op { op: op.into(), key, ttl, v }
}

fn cache() -> Arc<C> {
    forget();
    Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(7), max_cleaned: 500 }))
}

/// Sequential histories: after them every key is fetched, the cache shown, cleaned and measured.
fn seq(out: &Out, ops: &[Op]) {
    out.case(json!({"kind": "seq"}), || {
        sim::virtual_time(true);
        let (c, r) = (cache(), Rec::new());
        for o in ops {
            r.run(&c, 1, o);
            if o.op == "clean" {
                r.mem();
            }
        }
        r.run(&c, 1, &op("dump", 1, 0, 0));
        for k in 1..=2 {
            r.run(&c, 1, &op("get", k, 0, 0));
        }
        r.run(&c, 1, &op("clean", 1, 0, 0));
        r.mem();
        r.run(&c, 1, &op("dump", 1, 0, 0));
        for (k, v) in [(1, 50), (2, 51)] {
            r.run(&c, 1, &op("onf", k, 0, v));
            r.run(&c, 1, &op("set", k, 1000, v + 2));
            r.run(&c, 1, &op("rem", k, 0, 0));
        }
        r.mem();
        drop(c);
        r.take()
    });
}

fn random_op(g: &mut StdRng, v: usize, keys: usize, ticks: bool) -> Op {
    let k = g.gen_range(1..=keys);
    let ttl = *[0u64, 1, 500, 1000, 1500, 3000, 1_000_000].choose(g).unwrap();
    match g.gen_range(0..if ticks { 14 } else { 12 }) {
        0..=3 => op("set", k, ttl, v),
        4..=6 => op("get", k, 0, v),
        7..=8 => op("onf", k, 0, v),
        9 => op("rem", k, 0, v),
        10 => op("clean", 1, 0, v),
        11 => op("dump", 1, 0, v),
        _ => op("tick", 1, *[1u64, 499, 500, 1000, 1500].choose(g).unwrap(), v),
    }
}

fn par(out: &Out, i: u64, free: bool) {
    let mut g = StdRng::seed_from_u64(seed() * 100_000 + i);
    let n = g.gen_range(2..=4);
    let keys = g.gen_range(1..=2);
    let len = if free { 6 } else { g.gen_range(1..=4) };
    let mut v = 0;
    let mut pre = vec![];
    for k in 1..=keys {
        if g.gen_bool(0.7) {
            v += 1;
            pre.push(op("set", k, *[1u64, 500, 1000, 3000].choose(&mut g).unwrap(), v));
        }
    }
    if g.gen_bool(0.5) {
        pre.push(op("tick", 1, *[1u64, 499, 500, 1000].choose(&mut g).unwrap(), 0));
    }
    let mut jobs: Vec<Vec<Op>> = vec![];
    for _ in 0..n {
        jobs.push(
            (0..len)
                .map(|_| {
                    v += 1;
                    random_op(&mut g, v, keys, false)
                })
                .collect(),
        );
    }
    jobs.push((0..g.gen_range(0..4)).map(|_| op("tick", 1, *[1u64, 499, 500, 1000].choose(&mut g).unwrap(), 0)).collect());
    let s = g.gen();
    let pc = *[0u64, 30, 100].choose(&mut g).unwrap();
    out.case(json!({"kind": if free { "free" } else { "sched" }}), || {
        sim::virtual_time(true);
        let (c, r) = (cache(), Arc::new(Rec::new()));
        for o in &pre {
            r.run(&c, 1, o);
        }
        if free {
            SPIN.store(true, SeqCst);
            let b = Arc::new(Barrier::new(jobs.len()));
            let hs: Vec<_> = jobs
                .into_iter()
                .enumerate()
                .map(|(t, ops)| {
                    let (c, r, b) = (c.clone(), r.clone(), b.clone());
                    std::thread::spawn(move || {
                        b.wait();
                        for o in &ops {
                            r.run(&c, t + 1, o);
                        }
                    })
                })
                .collect();
            let mut ok = true;
            for h in hs {
                ok &= h.join().is_ok();
            }
            SPIN.store(false, SeqCst);
            if !ok {
                return json!({"ok": false, "why": "panic"});
            }
        } else {
            let done = Arc::new(Mutex::new(0));
            let k = jobs.len();
            let js: Vec<Box<dyn FnOnce() + Send>> = jobs
                .into_iter()
                .enumerate()
                .map(|(t, ops)| {
                    let (c, r, done) = (c.clone(), r.clone(), done.clone());
                    Box::new(move || {
                        for o in &ops {
                            sim::point(sim::P::User);
                            r.run(&c, t + 1, o);
                        }
                        *done.lock().unwrap() += 1;
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            sim::interleave(s, pc, js);
            if *done.lock().unwrap() != k {
                return json!({"ok": false, "why": "panic"});
            }
        }
        for k in 1..=keys {
            r.run(&c, 1, &op("get", k, 0, 0));
        }
        r.run(&c, 1, &op("clean", 1, 0, 0));
        r.mem();
        r.take()
    });
}

/// Histories in which a key stands for a block of many.
fn bulk(out: &Out, i: u64, n: usize) {
    let mut g = StdRng::seed_from_u64(seed() * 100_000 + 90_000 + i);
    let n = *[n, n / 3, n / 13].choose(&mut g).unwrap();
    let clean_max = *[0u64, 1, 500, 1_000_000].choose(&mut g).unwrap();
    out.case(json!({"kind": "bulk"}), || {
        sim::virtual_time(true);
        forget();
        let c = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_secs(7), max_cleaned: clean_max }));
        let r = Rec::new();
        for k in 1..=3 {
            r.run_block(&c, n, &op("set", k, *[1u64, 1000, 1_000_000].choose(&mut g).unwrap(), k));
        }
        for v in 10..10 + g.gen_range(4..12) {
            let o = random_op(&mut g, v, 3, true);
            r.run_block(&c, n, &o);
        }
        for k in 1..=3 {
            r.run_block(&c, n, &op("get", k, 0, 0));
        }
        r.run(&c, 1, &op("clean", 1, 0, 0));
        r.mem();
        r.take()
    });
}

/// The cleaning routine removes what has expired, period after period, and nothing else.
fn routine(out: &Out, i: u64) {
    let mut g = StdRng::seed_from_u64(seed() * 100_000 + 50_000 + i);
    let period = *[1000u64, 7000, 60_000].choose(&mut g).unwrap();
    out.case(json!({"kind": "routine"}), || {
        sim::virtual_time(true);
        forget();
        let c: Arc<C> = Arc::new(Cache::new(CacheConf { clean_period: Duration::from_millis(period), max_cleaned: 500 }));
        let r = Rec::new();
        let h = c.start_clean_routine();
        real_sleep(20);
        let mut v = 0;
        let mut exp: Vec<(usize, usize, u64)> = vec![];
        for _ in 0..g.gen_range(2..5) {
            for k in 1..=3 {
                if g.gen_bool(0.7) {
                    v += 1;
                    let ttl = *[1, period / 2, period, period * 2, period * 50].choose(&mut g).unwrap();
                    r.run(&c, 1, &op("set", k, ttl, v));
                    exp.retain(|x| x.0 != k);
                    exp.push((k, v, sim::now_ms() + ttl));
                }
            }
            // one call of the routine, between the end of its sleep and the moment all is settled
            r.put(json!({"k": "call", "t": 6, "op": "clean", "key": 1, "ttl": 0, "v": 0}));
            r.tick(period + period / 4);
            let want = |e: &Vec<(usize, usize, u64)>| {
                let mut x: Vec<usize> = e.iter().filter(|x| x.2 > sim::now_ms()).map(|x| x.1).collect();
                x.sort();
                x
            };
            let t0 = real_ms();
            while mem() != want(&exp) && real_ms() - t0 < 6000 {
                real_sleep(2);
            }
            real_sleep(15);
            r.put(json!({"k": "ret", "t": 6, "f": false, "e": 0, "v": 0}));
            // what is in memory is what the routine left
            r.put(json!({"k": "call", "t": 5, "op": "dump", "key": 1, "ttl": 0, "v": 0}));
            r.put(json!({"k": "ret", "t": 5, "ids": mem()}));
            if h.is_finished() {
                return json!({"ok": false, "why": "the routine ended"});
            }
        }
        r.take()
    });
}

fn main() {
    init();
    let out = Out::new(&arg(2), 20_000);
    match &arg(1)[..] {
        "seq" => {
            #[derive(Deserialize)]
            struct H {
                ops: Vec<Op>,
            }
            for l in std::io::BufReader::new(std::fs::File::open(arg(3)).unwrap()).lines() {
                let h: H = serde_json::from_str(&l.unwrap()).unwrap();
                seq(&out, &h.ops);
            }
        }
        "seqrnd" => {
            for i in 0..num(3) {
                let mut g = StdRng::seed_from_u64(seed() * 100_000 + 70_000 + i as u64);
                let n = g.gen_range(5..60);
                let ops: Vec<Op> = (1..=n).map(|v| random_op(&mut g, v + 100, 2, true)).collect();
                seq(&out, &ops);
            }
        }
        "sched" => (0..num(3)).for_each(|i| par(&out, i as u64, false)),
        "free" => (0..num(3)).for_each(|i| par(&out, i as u64 + 30_000, true)),
        "bulk" => (0..num(3)).for_each(|i| bulk(&out, i as u64, num(4))),
        "routine" => (0..num(3)).for_each(|i| routine(&out, i as u64)),
        _ => panic!("unknown command"),
    }
    out.finish();
    unsafe { libc::_exit(0) };
}
