//! Configurations: the files of ConfGen and random ones are written and loaded, and the two
//! programs are run as processes of their own with some of them, observed over the sockets.
use ariadne_dns::{nameserver, resolver};
use harness::out::Out;
use harness::*;
use rand::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use std::io::BufRead;

// ------------------------------------------------------------------ values
#[derive(Clone, Deserialize)]
struct Fv {
    p: String,
    v: String,
}
#[derive(Clone, Deserialize)]
struct Cf {
    prog: String,
    base: bool,
    fs: Vec<Fv>,
}

/// The value denoted by a JSON text, as the specification has it.
fn abst(t: &str) -> Value {
    if t == "NONE" {
        return json!({"k": "none"});
    }
    if t == "KEEP" {
        return json!({"k": "keep"});
    }
    if t.starts_with('[') && t.contains("\"starting_ttl\"") || t == "[]" {
        return json!({"k": "subs", "e": subs(t)});
    }
    let n = t.strip_prefix('-').unwrap_or(t);
    if !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()) {
        return int(t);
    }
    match serde_json::from_str::<Value>(t).unwrap() {
        Value::Null => json!({"k": "null"}),
        Value::Bool(b) => json!({"k": "bool", "b": b}),
        Value::String(s) => json!({"k": "str", "s": chars(&s)}),
        Value::Array(_) => json!({"k": "arr"}),
        Value::Object(_) => json!({"k": "obj"}),
        Value::Number(_) => json!({"k": "real"}),
    }
}
fn chars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn int(t: &str) -> Value {
    let n = t.strip_prefix('-').unwrap_or(t);
    json!({"k": "int", "neg": t.starts_with('-'), "d": n.bytes().map(|c| c - b'0').collect::<Vec<u8>>()})
}
/// Sub zones are written without spaces; values may be left out.
fn subs(t: &str) -> Vec<Value> {
    let mut v = vec![];
    for part in t.split("{\"starting_ttl\":").skip(1) {
        let (ttl, r) = part.split_once(",\"min_ttl\":").unwrap();
        let (min, r) = r.split_once(",\"zone\":").unwrap();
        let (zone, r) = r.split_once(",\"file\":").unwrap();
        let file = r.split_once('}').unwrap().0;
        v.push(json!({"ttl": abst(ttl), "min": abst(min), "zone": abst(zone), "file": abst(file)}));
    }
    v
}

/// The file: fields in the order given, groups nested.
fn text(c: &Cf) -> String {
    fn group(fs: &[Fv], pre: &str, ind: usize) -> String {
        let mut out = vec![];
        for f in fs {
            let Some(k) = f.p.strip_prefix(pre) else { continue };
            if k.is_empty() || k.contains('.') {
                continue;
            }
            let v = match &f.v[..] {
                "NONE" => continue,
                "KEEP" => group(fs, &format!("{}.", f.p), ind + 1),
                v => drop_none(v),
            };
            out.push(format!("{}\"{}\": {}", "  ".repeat(ind + 1), k, v));
        }
        format!("{{\n{}\n{}}}", out.join(",\n"), "  ".repeat(ind))
    }
    group(&c.fs, "", 0)
}
fn drop_none(v: &str) -> String {
    let mut v = v.to_string();
    for k in ["starting_ttl", "min_ttl", "zone", "file"] {
        v = v.replace(&format!(",\"{}\":NONE", k), "").replace(&format!("\"{}\":NONE,", k), "");
    }
    v
}

/// The fields of a configuration that was accepted.
fn flat(pre: &str, v: &Value, out: &mut Vec<Value>) {
    if let Value::Object(m) = v {
        for (k, x) in m {
            let p = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
            if p == "zone.sub_zones" {
                let e: Vec<Value> = x
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|s| json!({"ttl": abst(&s["starting_ttl"].to_string()), "min": abst(&s["min_ttl"].to_string()), "zone": abst(&s["zone"].to_string()), "file": abst(&s["file"].to_string())}))
                    .collect();
                out.push(json!({"p": p, "v": {"k": "subs", "e": e}}));
            } else if x.is_object() {
                flat(&p, x, out);
            } else {
                out.push(json!({"p": p, "v": abst(&x.to_string())}));
            }
        }
    }
}

fn load(prog: &str, path: &str) -> Value {
    let r = match prog {
        "ns" => nameserver::conf::Conf::from_file(path).map(|c| serde_json::to_value(&c).unwrap()),
        _ => resolver::conf::Conf::from_file(path).map(|c| serde_json::to_value(&c).unwrap()),
    };
    match r {
        Ok(v) => {
            let mut got = vec![];
            flat("", &v, &mut got);
            json!({"ok": true, "acc": true, "got": got})
        }
        Err(_) => json!({"ok": true, "acc": false, "got": []}),
    }
}

/// A load; `file` says what is done to the text of the configuration.
fn case(out: &Out, dir: &str, c: &Cf, file: &str, arg: usize, tail: &[u8]) {
    let path = format!("{}/conf.json", dir);
    let t = text(c).into_bytes();
    let full = t.len();
    let mut b = t;
    match file {
        "cut" => b.truncate(arg),
        "tail" => b.extend(tail),
        "utf" => b.insert(arg, 0xff),
        "noise" => {
            let mut g = StdRng::seed_from_u64(arg as u64);
            for _ in 0..g.gen_range(1..4) {
                let i = g.gen_range(0..b.len());
                match g.gen_range(0..3) {
                    0 => b[i] = *b"{}[]\",:0 9-.eatn\\".choose(&mut g).unwrap(),
                    1 => b.insert(i, *b"{}[]\",:0 9-.eatn\\".choose(&mut g).unwrap()),
                    _ => {
                        b.remove(i);
                    }
                }
            }
        }
        _ => {}
    }
    let _ = std::fs::remove_file(&path);
    let fs: Vec<Value> = c.fs.iter().map(|f| json!({"p": f.p, "v": abst(&f.v)})).collect();
    let p2 = match file {
        "gone" => path.clone(),
        "dir" => dir.to_string(),
        _ => {
            std::fs::write(&path, &b).unwrap();
            path.clone()
        }
    };
    out.case(json!({"prog": c.prog, "fs": fs, "file": file, "arg": arg, "full": full, "tail": tail}), || load(&c.prog, &p2));
}

fn lines(f: &str) -> Vec<Cf> {
    std::io::BufReader::new(std::fs::File::open(f).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

/// The valid configurations all others are derived from.
fn bases(cs: &[Cf]) -> Vec<Cf> {
    ["ns", "rs"].iter().map(|p| cs.iter().find(|c| c.prog == *p && c.base).unwrap().clone()).collect()
}

fn rnd_text(g: &mut StdRng, alphabet: &str, seeds: &[&str]) -> String {
    let mut s: Vec<char> = if g.gen_bool(0.7) { seeds.choose(g).unwrap().chars().collect() } else { vec![] };
    let al: Vec<char> = alphabet.chars().collect();
    for _ in 0..g.gen_range(0..if s.is_empty() { 14 } else { 4 }) {
        let i = g.gen_range(0..=s.len());
        match g.gen_range(0..3) {
            0 if i < s.len() => s[i] = *al.choose(g).unwrap(),
            1 if i < s.len() => {
                s.remove(i);
            }
            _ => s.insert(i, *al.choose(g).unwrap()),
        }
    }
    serde_json::to_string(&s.into_iter().collect::<String>()).unwrap()
}

fn rnd_num(g: &mut StdRng) -> String {
    let b: i128 = *[0i128, 1, 53, 255, 65535, 65536, 1 << 31, 1 << 32, 1 << 63, 1 << 64].choose(g).unwrap();
    (b + g.gen_range(-2..=2)).to_string()
}

fn rnd(g: &mut StdRng, base: &Cf) -> Cf {
    let mut c = base.clone();
    for _ in 0..g.gen_range(1..=4) {
        let k = g.gen_range(0..c.fs.len());
        let p = c.fs[k].p.clone();
        let name = |g: &mut StdRng| rnd_text(g, "aZ09-._ é", &["example.com.", "a.b-c.d.", ".", "x."]);
        let v = match p.rsplit('.').next().unwrap() {
            "address" => rnd_text(
                g,
                "0123456789abcF.:%",
                &["127.0.0.1", "255.249.199.9", "::", "::1", "1:2:3:4:5:6:7:8", "fe80::1:2", "::ffff:10.0.0.1", "1:2:3:4:5:6:1.2.3.4", "abcd:ef01::"],
            ),
            "zone" if p == "zone.zone" => name(g),
            "file" => rnd_text(g, "ab/.\"\\é ", &["zone", "/a/b"]),
            "log_level" => rnd_text(g, "IiNnOo", &["Info", "Warn", "Error"]),
            "silent" | "verbose" | "color" => ["true", "false"].choose(g).unwrap().to_string(),
            "sub_zones" => {
                let n = g.gen_range(0..4);
                let e: Vec<String> = (0..n)
                    .map(|_| {
                        let (t, m) = if g.gen_bool(0.3) { (rnd_num(g), rnd_num(g)) } else { (g.gen_range(0..9).to_string(), g.gen_range(0..9).to_string()) };
                        let z = if g.gen_bool(0.3) { name(g) } else { "\"s.x.\"".into() };
                        format!("{{\"starting_ttl\":{},\"min_ttl\":{},\"zone\":{},\"file\":\"f{}\"}}", t, m, z, n)
                    })
                    .collect();
                format!("[{}]", e.join(","))
            }
            _ if c.fs[k].v == "KEEP" => "KEEP".into(),
            _ => rnd_num(g),
        };
        c.fs[k].v = v;
    }
    c
}


fn main() {
    init();
    let out = Out::new(&arg(2), 20000);
    let mut g = StdRng::seed_from_u64(seed());
    let dir = std::env::current_dir().unwrap().join("conf.d").display().to_string();
    std::fs::create_dir_all(&dir).unwrap();
    match &arg(1)[..] {
        "conf" => {
            let cs = lines(&arg(3));
            for c in &cs {
                case(&out, &dir, c, "plain", 0, &[]);
            }
            for b in bases(&cs) {
                let n = text(&b).len();
                for k in 0..=n {
                    case(&out, &dir, &b, "cut", k, &[]);
                }
                for t in ["", " ", "\n\n\t \r\n", "x", "{}", "}", ",", "null", "\0", "\u{feff}"] {
                    case(&out, &dir, &b, "tail", 0, t.as_bytes());
                }
                for k in (0..n).step_by(7) {
                    case(&out, &dir, &b, "utf", k, &[]);
                }
                case(&out, &dir, &b, "gone", 0, &[]);
                case(&out, &dir, &b, "dir", 0, &[]);
                for k in 0..if deep() { 20000 } else { 2000 } {
                    case(&out, &dir, &b, "noise", k, &[]);
                }
            }
        }
        "rnd" => {
            let bs = bases(&lines(&arg(4)));
            for _ in 0..num(3) {
                let b = bs.choose(&mut g).unwrap();
                let c = rnd(&mut g, b);
                case(&out, &dir, &c, "plain", 0, &[]);
            }
        }
        _ => panic!("usage"),
    }
    std::fs::remove_dir_all(&dir).unwrap();
    out.finish();
}
