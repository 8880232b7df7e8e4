//! N05: the text of zone files.
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::dns::{Name, RecordType};
use harness::conv::*;
use harness::gen;
use harness::out::*;
use harness::wire::*;
use harness::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Serialize, Deserialize)]
struct Sub {
    zone: Nm,
    start: [u8; 4],
    min: [u8; 4],
    f: Vec<u8>,
}
#[derive(Clone, Serialize, Deserialize)]
struct File {
    f: Vec<u8>,
    x: Vec<u8>,
}
#[derive(Clone, Serialize, Deserialize)]
struct Load {
    zone: Nm,
    start: [u8; 4],
    main: Vec<u8>,
    subs: Vec<Sub>,
    files: Vec<File>,
}

const DIR: &str = "zf";

fn s(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}

fn dump(z: &Zone) -> Vec<Rr> {
    use RecordType::*;
    [SOA, NS, A, CNAME, WKS, PTR, HINFO, MX, TXT].iter().flat_map(|t| z.get_all_of_type(t.clone())).map(rr_to).collect()
}

fn case(o: &Out, l: &Load) {
    for e in std::fs::read_dir(".").unwrap() {
        let _ = std::fs::remove_file(e.unwrap().path());
    }
    for f in &l.files {
        std::fs::write(s(&f.f), &f.x).unwrap();
    }
    o.case(json!({"L": l}), || {
        let p = ParsingParams {
            file_path: s(&l.main),
            zone: name_from(&l.zone),
            starting_ttl: u32::from_be_bytes(l.start),
            sub_zones: l
                .subs
                .iter()
                .map(|z| SubParsingParams { file_path: s(&z.f), zone: name_from(&z.zone), starting_ttl: u32::from_be_bytes(z.start), min_ttl: u32::from_be_bytes(z.min) })
                .collect(),
        };
        match parse_zone_files(p) {
            Err(_) => json!({"ok": true, "acc": false, "auth": [], "subs": []}),
            Ok(m) => {
                let subs: Vec<Value> = m.sub_zones.iter().map(|z| json!(dump(z))).collect();
                json!({"ok": true, "acc": true, "auth": dump(&m.auth_zone), "subs": subs})
            }
        }
    });
}

#[derive(Deserialize)]
struct Frame {
    #[serde(rename = "L")]
    l: Load,
    hole: usize,
    pre: Vec<u8>,
    post: Vec<u8>,
    pool: Vec<Vec<u8>>,
}

fn lines(p: &str) -> Vec<String> {
    std::fs::read_to_string(p).unwrap().lines().map(|l| l.to_string()).collect()
}

fn run_gen(o: &Out, frames: Vec<String>, gens: Vec<String>) {
    let fs: Vec<Frame> = frames.iter().map(|l| serde_json::from_str(l).unwrap()).collect();
    for g in gens {
        let v: Value = serde_json::from_str(&g).unwrap();
        let f = &fs[v["fr"].as_u64().unwrap() as usize - 1];
        let mut l = f.l.clone();
        let mut x = f.pre.clone();
        for k in v["seq"].as_array().unwrap() {
            x.extend(&f.pool[k.as_u64().unwrap() as usize - 1]);
        }
        x.extend(&f.post);
        l.files[f.hole - 1].x = x;
        case(o, &l);
    }
}

// ------------------------------------------------------------------ random texts
struct W<'a> {
    g: &'a mut gen::R,
    x: String,
    par: bool,
    budget: usize,
}

impl W<'_> {
    fn p(&mut self, p: f64) -> bool {
        self.g.gen_bool(p)
    }
    /// white space, with what may stand between two tokens
    fn sp(&mut self) {
        let w = *[" ", " ", " ", " ", "  ", "\t", " \t "].choose(self.g).unwrap();
        self.x.push_str(w);
        if self.par {
            if self.p(0.3) {
                if self.p(0.4) {
                    self.x.push_str("; in ) between \" $");
                }
                self.x.push('\n');
                if self.p(0.3) {
                    self.x.push_str("   ; only a comment\n");
                }
                if self.p(0.2) {
                    self.x.push('\n');
                }
                if self.p(0.6) {
                    self.x.push_str("    ");
                }
            }
            if self.p(0.2) {
                self.x.push_str(") ");
                self.par = false;
            }
        } else if self.p(0.07) {
            self.x.push_str("( ");
            self.par = true;
        }
    }
    fn end(&mut self) {
        if self.par {
            self.x.push_str(*[")", " )", "\n)"].choose(self.g).unwrap());
            self.par = false;
        }
        if self.p(0.15) {
            self.x.push_str(*[";c", " ; a (comment) \"", "\t;", " "].choose(self.g).unwrap());
        }
        self.x.push('\n');
        if self.p(0.1) {
            self.x.push_str(*["\n", "  \n", "; a comment line\n", "\t; one ( more\n", ";\n"].choose(self.g).unwrap());
        }
    }
    fn label(&mut self) -> String {
        if self.p(0.7) {
            (*["a", "b", "www", "ns", "7", "42", "x-1", "WWW", "IN", "A", "4294967296", "1.2", "s0", "xs"].choose(self.g).unwrap()).to_string()
        } else {
            let n = *[1usize, 2, 5, 12, 62, 63].choose(self.g).unwrap();
            s(&gen::label(self.g, n))
        }
    }
    fn name(&mut self, origin: &str, zone: &str, owner: bool) -> String {
        let abs = |l: String, z: &str| if z == "." { format!("{}.", l) } else { format!("{}.{}", l, z) };
        match self.g.gen_range(0..10) {
            0 | 1 => "@".into(),
            2..=5 => self.label(),
            6 => {
                let (a, b) = (self.label(), self.label());
                format!("{}.{}", a, b)
            }
            7 => {
                let l = self.label();
                abs(l, origin)
            }
            8 => {
                let l = self.label();
                abs(l, zone)
            }
            _ if owner => zone.to_string(),
            _ => ["ns.other.", "other.", "."].choose(self.g).unwrap().to_string(),
        }
    }
    fn string(&mut self) -> String {
        let n = *[0usize, 1, 1, 3, 8, 20, 255].choose(self.g).unwrap();
        let n = if n == 255 && self.budget == 0 { 4 } else { n };
        if n == 255 {
            self.budget -= 1;
        }
        let quoted = n == 0 || self.p(0.5);
        let mut t = String::new();
        let mut k = 0;
        while k < n {
            let c = if self.p(0.6) { self.g.gen_range(b'a'..=b'z') } else { self.g.gen_range(32..127u8) } as char;
            if !quoted {
                if c == ' ' || (k == 0 && "\"$@".contains(c)) || c.is_ascii_digit() && self.p(0.3) {
                    continue;
                }
                if "\\;()\"".contains(c) {
                    t.push('\\');
                }
            } else {
                if "\"\\".contains(c) {
                    t.push('\\');
                } else if !c.is_ascii_digit() && self.p(0.05) {
                    t.push('\\');
                }
            }
            t.push(c);
            k += 1;
        }
        if quoted {
            format!("\"{}\"", t)
        } else {
            t
        }
    }
    fn lead(&mut self, ttl: Option<u32>) {
        let c = self.p(0.5);
        match ttl {
            Some(t) if c && self.p(0.5) => {
                self.x.push_str("IN");
                self.sp();
                self.x.push_str(&t.to_string());
                self.sp();
            }
            Some(t) => {
                self.x.push_str(&t.to_string());
                self.sp();
                if c {
                    self.x.push_str("IN");
                    self.sp();
                }
            }
            None if c => {
                self.x.push_str("IN");
                self.sp();
            }
            None => {}
        }
    }
    fn put(&mut self, t: &str) {
        self.sp();
        self.x.push_str(t);
    }
    fn ip(&mut self) -> String {
        let b: [u8; 4] = self.g.gen();
        format!("{}.{}.{}.{}", b[0], b[1], b[2], b[3])
    }
    fn record(&mut self, origin: &str, zone: &str, min: u32) {
        if self.p(0.3) {
            self.x.push(' ');
        } else {
            let n = self.name(origin, zone, true);
            self.x.push_str(&n);
            self.sp();
        }
        let t = if self.p(0.5) { Some(*[min, min + 1, 300, 86400, 2147483647, if self.p(0.05) { min.wrapping_sub(1) } else { 7200 }].choose(self.g).unwrap()) } else { None };
        self.lead(t);
        match self.g.gen_range(0..9) {
            0 | 1 => {
                self.x.push_str("A");
                let i = self.ip();
                self.put(&i);
            }
            2 => {
                self.x.push_str("CNAME");
                let n = self.name(origin, zone, false);
                self.put(&n);
            }
            3 => {
                self.x.push_str("MX");
                let p = self.g.gen_range(0..65536).to_string();
                self.put(&p);
                let n = self.name(origin, zone, false);
                self.put(&n);
            }
            4 | 5 => {
                self.x.push_str("TXT");
                for _ in 0..self.g.gen_range(1..4) {
                    let t = self.string();
                    self.put(&t);
                }
            }
            6 => {
                self.x.push_str("HINFO");
                for _ in 0..2 {
                    let t = self.string();
                    self.put(&t);
                }
            }
            7 => {
                self.x.push_str("PTR");
                let mut n = self.name(origin, zone, false);
                if !n.ends_with('.') {
                    n = "p.other.".into();
                }
                self.put(&n);
            }
            _ => {
                self.x.push_str("WKS");
                let i = self.ip();
                self.put(&i);
                let p = *["TCP", "UDP"].choose(self.g).unwrap();
                self.put(p);
            }
        }
        self.end();
    }
}

fn entries(w: &mut W, n: usize, zone: &str, origin0: &str, min: u32, incl: &[&str]) {
    let mut origin = origin0.to_string();
    let mut incl = incl.to_vec();
    for _ in 0..n {
        match w.g.gen_range(0..10) {
            0 => {
                origin = if w.p(0.4) {
                    zone.to_string()
                } else {
                    let l = w.label();
                    if zone == "." {
                        format!("{}.", l)
                    } else {
                        format!("{}.{}", l, zone)
                    }
                };
                w.x.push_str("$ORIGIN");
                let t = origin.clone();
                w.put(&t);
                w.end();
            }
            1 if !incl.is_empty() => {
                let f = incl.remove(0);
                w.x.push_str("$INCLUDE");
                w.put(f);
                if w.p(0.5) {
                    let mut n = w.name(&origin, zone, true);
                    if n == "@" {
                        n = zone.to_string();
                    }
                    w.put(&n);
                }
                w.end();
            }
            _ => w.record(&origin, zone, min),
        }
    }
}

fn random(o: &Out, seed: u64, n: usize) {
    let mut g = gen::rng(seed, 31);
    for i in 0..n {
        let zone = *["e.", "zone.test.", "."].choose(&mut g).unwrap();
        let min = *[0u32, 60, 300].choose(&mut g).unwrap();
        let start = g.gen_range(min..min + 1000);
        let mut w = W { g: &mut g, x: String::new(), par: false, budget: 1 };
        if w.p(0.5) {
            w.x.push_str("; a zone\n\n");
        }
        match w.g.gen_range(0..3) {
            0 => w.x.push_str("@ "),
            1 => w.x.push_str(&format!("{} ", zone)),
            _ => w.x.push_str("  "),
        }
        let t = Some(min + 5);
        let t = if w.g.gen() { t } else { None };
        w.lead(t);
        if !w.x.ends_with("IN ") && !w.x.contains("IN") {
            w.x.push_str("IN ");
        }
        w.x.push_str("SOA");
        for t in [zone, "m.other.", "2024010101", "1", "2", "4294967295", &min.to_string()] {
            w.put(t);
        }
        w.end();
        for k in 0..w.g.gen_range(1..3) {
            if k == 0 || w.p(0.5) {
                w.x.push_str("@ ");
            } else {
                w.x.push_str("\t");
            }
            w.lead(if k == 0 { None } else { Some(min) });
            w.x.push_str("NS");
            let nm = w.name(zone, zone, false);
            w.put(&nm);
            w.end();
        }
        let k = w.g.gen_range(0..9);
        entries(&mut w, k, zone, zone, min, &["f1", "f2"]);
        let x0 = std::mem::take(&mut w.x);
        let mut files = vec![File { f: b"f0".to_vec(), x: x0.into_bytes() }];
        for f in ["f1", "f2"] {
            let k = w.g.gen_range(0..5);
            entries(&mut w, k, zone, zone, min, if f == "f1" { &["f2"] } else { &[] });
            files.push(File { f: f.as_bytes().to_vec(), x: std::mem::take(&mut w.x).into_bytes() });
        }
        // a sub zone in some
        let mut subs = vec![];
        if w.p(0.4) {
            let sz = if zone == "." { "sz.".to_string() } else { format!("sz.{}", zone) };
            let smin = *[0u32, 100].choose(w.g).unwrap();
            for _ in 0..w.g.gen_range(1..3) {
                w.x.push_str(*["@ ", " ", "\t"].choose(w.g).unwrap());
                let t = if w.p(0.5) { Some(smin + 3) } else { None };
                w.lead(t);
                w.x.push_str("NS");
                let nm = if w.p(0.6) { "ns".to_string() } else { "ns.other.".to_string() };
                w.put(&nm);
                w.end();
            }
            if w.x.contains("ns\n") || w.x.contains("ns ") || w.x.contains("ns)") || w.x.contains("ns;") || w.x.contains("ns\t") {
                w.x.push_str("ns");
                w.sp();
                let t = if w.p(0.5) { Some(smin + 4) } else { None };
                w.lead(t);
                w.x.push_str("A");
                let i = w.ip();
                w.put(&i);
                w.end();
            }
            files.push(File { f: b"f3".to_vec(), x: std::mem::take(&mut w.x).into_bytes() });
            subs.push(Sub { zone: name_to(&Name::from_string(&sz).unwrap()), start: (smin + 9).to_be_bytes(), min: smin.to_be_bytes(), f: b"f3".to_vec() });
        }
        drop(w);
        if i % 5 < 2 {
            // damage
            for _ in 0..g.gen_range(1..3) {
                let k = g.gen_range(0..files.len());
                let x = &mut files[k].x;
                let p = g.gen_range(0..=x.len());
                let c = *b" \n\t\"\\;()@$.0a9-_\r~\x0b\xc3Z".choose(&mut g).unwrap();
                match g.gen_range(0..4) {
                    0 if p < x.len() => {
                        x.remove(p);
                    }
                    1 if p < x.len() => x[p] = c,
                    2 if p < x.len() => x.truncate(p),
                    _ => x.insert(p, c),
                }
            }
        }
        let l = Load { zone: name_to(&Name::from_string(zone).unwrap()), start: start.to_be_bytes(), main: b"f0".to_vec(), subs, files };
        case(o, &l);
    }
}

fn main() {
    init();
    let o = Out::new(&arg(2), 10000);
    let cmd = arg(1);
    let (fr, gn) = match cmd.as_str() {
        "gen" => (lines(&arg(3)), lines(&arg(4))),
        _ => (vec![], vec![]),
    };
    let _ = std::fs::remove_dir_all(DIR);
    std::fs::create_dir_all(DIR).unwrap();
    std::env::set_current_dir(DIR).unwrap();
    match cmd.as_str() {
        "gen" => run_gen(&o, fr, gn),
        "rnd" => random(&o, seed(), num(3)),
        c => panic!("unknown command {}", c),
    }
    o.finish();
}
