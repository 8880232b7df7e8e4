//! Conversions between the harness' message model and the types of ariadne-dns.
use crate::wire::*;
use ariadne_dns::shared::dns::{self, Class, Name, OpCode, Question, Record, RecordType, RespCode};

pub fn name_to(n: &Name) -> Nm {
    let s: &str = n.as_ref();
    if s == "." {
        return vec![];
    }
    let s = s.strip_suffix('.').unwrap_or(s);
    s.split('.').map(|l| l.as_bytes().to_vec()).collect()
}

pub fn name_from(n: &Nm) -> Name {
    Name::from_string(&nm_str(n)).expect("harness generated an illegal name")
}

pub fn rr_to(r: &Record) -> Rr {
    let mut d = RData::default();
    match r {
        Record::A { address, .. } => d.by.push(address.to_vec()),
        Record::NS { name, .. } | Record::CNAME { name, .. } | Record::PTR { name, .. } => d.nm.push(name_to(name)),
        Record::SOA { ns_name, ml_name, serial, refresh, retry, expire, minimum, .. } => {
            d.nm.push(name_to(ns_name));
            d.nm.push(name_to(ml_name));
            let mut b = vec![];
            for x in [serial, refresh, retry, expire, minimum] {
                b.extend(x.to_be_bytes());
            }
            d.by.push(b);
        }
        Record::WKS { address, protocol, ports, .. } => {
            d.by.push(address.to_vec());
            d.by.push(vec![*protocol]);
            let mut p = ports.clone();
            p.sort();
            p.dedup();
            d.nu = p;
        }
        Record::HINFO { cpu, os, .. } => {
            d.by.push(cpu.as_bytes().to_vec());
            d.by.push(os.as_bytes().to_vec());
        }
        Record::MX { priority, name, .. } => {
            d.nu.push(*priority as u32);
            d.nm.push(name_to(name));
        }
        Record::TXT { txts, .. } => d.by = txts.iter().map(|t| t.as_bytes().to_vec()).collect(),
    }
    Rr {
        n: name_to(r.node()),
        t: r.record_type().to_num(),
        c: r.class().to_num(),
        ttl: r.ttl().to_be_bytes(),
        d,
        raw: None,
    }
}

pub fn rr_from(r: &Rr) -> Record {
    let node = name_from(&r.n);
    let class = Class::IN;
    let ttl = r.ttl_u32();
    let data_len = 0;
    let s = |i: usize| String::from_utf8(r.d.by[i].clone()).expect("utf8");
    match r.t {
        1 => Record::A { node, class, ttl, data_len, address: r.d.by[0].clone().try_into().unwrap() },
        2 => Record::NS { node, class, ttl, data_len, name: name_from(&r.d.nm[0]) },
        5 => Record::CNAME { node, class, ttl, data_len, name: name_from(&r.d.nm[0]) },
        12 => Record::PTR { node, class, ttl, data_len, name: name_from(&r.d.nm[0]) },
        6 => {
            let g = |i: usize| u32::from_be_bytes(r.d.by[0][i * 4..i * 4 + 4].try_into().unwrap());
            Record::SOA {
                node,
                class,
                ttl,
                data_len,
                ns_name: name_from(&r.d.nm[0]),
                ml_name: name_from(&r.d.nm[1]),
                serial: g(0),
                refresh: g(1),
                retry: g(2),
                expire: g(3),
                minimum: g(4),
            }
        }
        11 => Record::WKS {
            node,
            class,
            ttl,
            data_len,
            address: r.d.by[0].clone().try_into().unwrap(),
            protocol: r.d.by[1][0],
            ports: r.d.nu.clone(),
        },
        13 => Record::HINFO { node, class, ttl, data_len, cpu: s(0), os: s(1) },
        15 => Record::MX { node, class, ttl, data_len, priority: r.d.nu[0] as u16, name: name_from(&r.d.nm[0]) },
        16 => Record::TXT { node, class, ttl, data_len, txts: (0..r.d.by.len()).map(s).collect() },
        t => panic!("type {}", t),
    }
}

fn rc_to(rc: &RespCode) -> u8 {
    match rc {
        RespCode::NoError => 0,
        RespCode::FormErr => 1,
        RespCode::ServFail => 2,
        RespCode::NxDomain => 3,
        RespCode::NotImp => 4,
        RespCode::Refused => 5,
    }
}

fn rc_from(rc: u8) -> RespCode {
    match rc {
        0 => RespCode::NoError,
        1 => RespCode::FormErr,
        2 => RespCode::ServFail,
        3 => RespCode::NxDomain,
        4 => RespCode::NotImp,
        5 => RespCode::Refused,
        _ => panic!("rc"),
    }
}

pub fn hd_to(h: &dns::Header) -> Hd {
    Hd {
        id: h.id,
        qr: h.query_resp as u8,
        op: h.op_code.to_num(),
        aa: h.auth_answer as u8,
        tc: h.truncated as u8,
        rd: h.recursion_desired as u8,
        ra: h.recursion_available as u8,
        z: h.z,
        rc: rc_to(&h.resp_code),
        qc: h.questions_count,
        ac: h.answers_count,
        nc: h.authorities_count,
        rcnt: h.additionals_count,
    }
}

pub fn msg_to(m: &dns::Message) -> Msg {
    Msg {
        h: hd_to(&m.header),
        q: m.questions
            .iter()
            .map(|q| Qu { n: name_to(&q.node), t: q.record_type.to_num(), c: q.class.to_num() })
            .collect(),
        an: m.answers.iter().map(rr_to).collect(),
        ns: m.authorities.iter().map(rr_to).collect(),
        ar: m.additionals.iter().map(rr_to).collect(),
    }
}

pub fn rtype(t: u16) -> RecordType {
    RecordType::from_num(t).unwrap()
}

pub fn msg_from(m: &Msg) -> dns::Message {
    dns::Message {
        header: dns::Header {
            id: m.h.id,
            query_resp: m.h.qr == 1,
            op_code: OpCode::from_num(m.h.op).unwrap(),
            auth_answer: m.h.aa == 1,
            truncated: m.h.tc == 1,
            recursion_desired: m.h.rd == 1,
            recursion_available: m.h.ra == 1,
            z: m.h.z,
            resp_code: rc_from(m.h.rc),
            questions_count: m.h.qc,
            answers_count: m.h.ac,
            authorities_count: m.h.nc,
            additionals_count: m.h.rcnt,
        },
        questions: m
            .q
            .iter()
            .map(|q| Question { node: name_from(&q.n), record_type: rtype(q.t), class: Class::IN })
            .collect(),
        answers: m.an.iter().map(rr_from).collect(),
        authorities: m.ns.iter().map(rr_from).collect(),
        additionals: m.ar.iter().map(rr_from).collect(),
    }
}
