//! Zones as sequences of records, and the files they are written to.
use crate::wire::*;
use ariadne_dns::nameserver::*;
use ariadne_dns::shared::dns::Name;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SubZ {
    pub zone: Nm,
    pub recs: Vec<Rr>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ZoneDef {
    pub zone: Nm,
    pub recs: Vec<Rr>,
    pub subs: Vec<SubZ>,
}

fn quoted(s: &[u8]) -> String {
    let mut o = String::from("\"");
    for &c in s {
        if c == b'"' || c == b'\\' {
            o.push('\\');
        }
        o.push(c as char);
    }
    o.push('"');
    o
}

/// One record, absolutely and explicitly.
pub fn line(r: &Rr) -> String {
    let ip = |b: &[u8]| format!("{}.{}.{}.{}", b[0], b[1], b[2], b[3]);
    let data = match r.t {
        1 => ("A", ip(&r.d.by[0])),
        2 => ("NS", nm_str(&r.d.nm[0])),
        5 => ("CNAME", nm_str(&r.d.nm[0])),
        12 => ("PTR", nm_str(&r.d.nm[0])),
        15 => ("MX", format!("{} {}", r.d.nu[0], nm_str(&r.d.nm[0]))),
        13 => ("HINFO", format!("{} {}", quoted(&r.d.by[0]), quoted(&r.d.by[1]))),
        16 => ("TXT", r.d.by.iter().map(|s| quoted(s)).collect::<Vec<_>>().join(" ")),
        6 => {
            let n: Vec<String> = r.d.by[0].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap()).to_string()).collect();
            ("SOA", format!("{} {} {}", nm_str(&r.d.nm[0]), nm_str(&r.d.nm[1]), n.join(" ")))
        }
        11 => ("WKS", format!("{} {}", ip(&r.d.by[0]), if r.d.by[1][0] == 6 { "TCP" } else { "UDP" })),
        t => panic!("type {}", t),
    };
    format!("{} {} IN {} {}\n", nm_str(&r.n), r.ttl_u32(), data.0, data.1)
}

pub fn text(recs: &[Rr]) -> String {
    recs.iter().map(line).collect()
}

/// Write the files of the zone into dir and load them.
pub fn load(z: &ZoneDef, dir: &str, min_ttl: u32) -> Option<ManagedZone> {
    std::fs::create_dir_all(dir).unwrap();
    let f = format!("{}/auth", dir);
    std::fs::write(&f, text(&z.recs)).unwrap();
    let mut sub_zones = vec![];
    for (i, s) in z.subs.iter().enumerate() {
        let f = format!("{}/sub{}", dir, i);
        std::fs::write(&f, text(&s.recs)).unwrap();
        sub_zones.push(SubParsingParams { file_path: f, zone: Name::from_string(&nm_str(&s.zone)).unwrap(), starting_ttl: 300, min_ttl });
    }
    parse_zone_files(ParsingParams { file_path: f, zone: Name::from_string(&nm_str(&z.zone)).unwrap(), starting_ttl: 300, sub_zones }).ok()
}
