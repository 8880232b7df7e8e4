//! Case recorder: every case is one NDJSON line {i, <input fields>, r: <result>}.
//! A panic is a result, and so is a hang (watchdog) or an abort (the input of the case
//! being run is in <out>.cur, which the driver reads when the process dies).
use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// Monotonic time in milliseconds, immune to the virtual clock.
pub fn real_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub fn real_sleep(ms: u64) {
    let ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    unsafe { libc::syscall(libc::SYS_nanosleep, &ts, 0usize) };
}

struct St {
    w: BufWriter<File>,
    cur: Map<String, Value>,
}

pub struct Out {
    st: Arc<Mutex<St>>,
    started: Arc<AtomicU64>, // 0 = no case running
    curf: File,
    pub n: AtomicU64,
    slow: AtomicU64,
}

fn put(w: &mut BufWriter<File>, m: &Map<String, Value>) {
    serde_json::to_writer(&mut *w, m).unwrap();
    w.write_all(b"\n").unwrap();
}

impl Out {
    pub fn new(path: &str, hang_ms: u64) -> Out {
        let st = Arc::new(Mutex::new(St { w: BufWriter::new(File::create(path).unwrap()), cur: Map::new() }));
        let started = Arc::new(AtomicU64::new(0));
        let (s2, t2) = (st.clone(), started.clone());
        std::thread::spawn(move || loop {
            real_sleep(200);
            let t = t2.load(SeqCst);
            if t != 0 && real_ms() - t > hang_ms {
                let mut g = s2.lock().unwrap();
                if t2.load(SeqCst) == t {
                    let mut m = std::mem::take(&mut g.cur);
                    m.insert("r".into(), json!({"ok": false, "why": "hang"}));
                    put(&mut g.w, &m);
                    g.w.flush().unwrap();
                    unsafe { libc::_exit(0) };
                }
            }
        });
        let curf = File::create(format!("{}.cur", path)).unwrap();
        Out { st, started, curf, n: AtomicU64::new(0), slow: AtomicU64::new(0) }
    }

    /// Run one case; `f` returns the result value, a panic is recorded.
    pub fn case(&self, input: Value, f: impl FnOnce() -> Value) -> Value {
        // a server that does not answer: the cases recorded say enough, more would take too long
        if self.slow.load(SeqCst) >= 8 {
            return json!({"ok": false, "why": "not run"});
        }
        let i = self.n.fetch_add(1, SeqCst);
        let mut m = match input {
            Value::Object(m) => m,
            _ => panic!("case input"),
        };
        m.insert("i".into(), json!(i));
        let mut line = serde_json::to_vec(&m).unwrap();
        line.push(b'\n');
        let _ = self.curf.set_len(0);
        let _ = self.curf.write_at(&line, 0);
        self.st.lock().unwrap().cur = m.clone();
        let t0 = real_ms();
        self.started.store(t0.max(1), SeqCst);
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(_) => json!({"ok": false, "why": "panic"}),
        };
        self.started.store(0, SeqCst);
        if r["ok"] == false && real_ms() - t0 > 2000 {
            self.slow.fetch_add(1, SeqCst);
        }
        m.insert("r".into(), r.clone());
        put(&mut self.st.lock().unwrap().w, &m);
        r
    }

    /// Write a line without running anything.
    pub fn line(&self, v: &Value) {
        let mut g = self.st.lock().unwrap();
        serde_json::to_writer(&mut g.w, v).unwrap();
        g.w.write_all(b"\n").unwrap();
    }

    pub fn finish(&self) {
        self.st.lock().unwrap().w.flush().unwrap();
        let _ = self.curf.set_len(0);
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
