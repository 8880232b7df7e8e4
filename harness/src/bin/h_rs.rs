//! N01, N02: the resolver's servers, with simulated name servers behind them.
#[path = "../sim.rs"]
#[allow(dead_code)]
mod sim;
use ariadne_dns::resolver::*;
use harness::out::*;
use harness::serve::*;
use harness::srv::*;
use harness::wire::*;
use harness::world::*;
use harness::*;
use rand::prelude::*;
use std::sync::Arc;
use std::time::Duration;

/// A few zones with every kind of record the servers behind the resolver can hold.
fn world(g: &mut gen::R) -> World {
    let mut w = World { zones: vec![root_zone(86400)], style: CHASE | HINT };
    for (i, z) in ["com", "example.com", "sub.example.com"].iter().enumerate() {
        let z = nm(z);
        let h = under("ns", &z);
        let mut recs = vec![soa(z.clone(), 300), ns(z.clone(), 300, h.clone()), a(h, 300, [10, 1, 0, i as u8 + 1])];
        for l in ["www", "a", "b", "x-1"] {
            let n = under(l, &z);
            recs.push(a(n.clone(), 100, [10, 2, 0, 1]));
            recs.push(mx(n.clone(), 100, 5, under("www", &z)));
            for k in 0..g.gen_range(0..40) {
                recs.push(txt(n.clone(), 100, &format!("text {}", k)));
            }
        }
        recs.push(cn(under("al", &z), 100, under("www", &z)));
        recs.push(cn(under("al2", &z), 100, under("al", &z)));
        recs.push(cn(under("loop", &z), 100, under("loop", &z)));
        recs.push(cn(under("gone", &z), 100, under("nowhere", &z)));
        w.zones.push(WZone { zone: z, recs });
    }
    w
}

fn serve(o: &Out, n: usize) {
    let mut g = gen::rng(seed(), 41);
    for round in 0..2 {
        let w = world(&mut g);
        let mut names: Vec<Nm> = w.zones.iter().flat_map(|z| z.recs.iter().map(|r| r.n.clone())).collect();
        names.sort();
        names.dedup();
        for z in &w.zones {
            names.push(under("none", &z.zone));
            names.push(under("b", &under("none", &z.zone)));
        }
        names.push(nm("silent"));
        names.push(nm("a.b.silent"));
        let mut h = gen::rng(seed(), 42);
        let odd = round == 1;
        sim::begin(
            usize::MAX / 2,
            Box::new(move |q: &sim::Query| {
                let Some((_, qu)) = parse_query(q.b) else { return sim::Reply::Data(vec![]) };
                if lower(&qu.n).last().is_some_and(|l| l == b"silent") || odd && h.gen_bool(0.2) {
                    return match h.gen_range(0..3) {
                        0 => sim::Reply::Errno(libc::ENETUNREACH),
                        1 => sim::Reply::Data(vec![(1, (0..h.gen_range(0..40)).map(|_| h.gen()).collect())]),
                        _ => sim::Reply::Data(vec![]),
                    };
                }
                sim::Reply::Data(w.reply(&mut h, q.ip, q.b).into_iter().map(|b| (0, b)).collect())
            }),
        );
        let probe = query(1, &nm("www.example.com"), 1);
        let start = |k: usize, ms: u64| {
            let cache = Arc::new(RecordsCache::new(CacheConf { clean_period: Duration::from_secs(60), max_cleaned: 500 }));
            let p = ResolverParams {
                max_ns_queried: 3,
                max_upd_retries: 2,
                max_cname_redir: 5,
                read_timeout: Duration::from_millis(100),
                write_timeout: Duration::from_millis(100),
                no_follow_cname: false,
            };
            let tr = TraceParams { verbose: false, silent: true, color: false };
            Server::start_r(Arc::new(ResolverHandler(Resolver::new(&cache, p, tr))), k, k, &probe, ms)
        };
        history(o, &mut g, 0, n, &nm("example.com"), &names, round == 0, &start, None);
        sim::end();
    }
}

fn main() {
    init();
    let o = Out::new(&arg(2), 20000);
    match arg(1).as_str() {
        "serve" => {
            std::fs::write(format!("{}.zones", arg(2)), "{}\n").unwrap();
            serve(&o, num(3))
        }
        c => panic!("unknown command {}", c),
    }
    o.finish();
}
