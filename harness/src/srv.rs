//! Running the real servers on the loopback interface and talking to them.
use crate::out::real_ms;
use crate::wire::*;
use ariadne_dns::shared::dns;
use ariadne_dns::shared::net::*;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// In-process request and response: the bytes of a request, and the complete reply.
pub struct Rq(pub Vec<u8>);
pub struct Rs(pub Arc<Mutex<Vec<Vec<u8>>>>);

impl DnsRead for Rq {
    fn read(self) -> DnsReadResult {
        match dns::Message::decode_from_bytes(&self.0) {
            Ok(m) => DnsReadResult::FullMessage(m),
            Err(e) => match dns::Header::decode_from_bytes(&self.0) {
                Ok(h) => DnsReadResult::HeaderOnly(h, e),
                Err(eh) => DnsReadResult::ParseErr(e, eh),
            },
        }
    }
}

impl DnsWrite for Rs {
    fn reply(self, m: dns::Message) -> std::io::Result<()> {
        let b = m.encode_to_bytes().unwrap();
        self.0.lock().unwrap().push(b);
        Ok(())
    }
}

/// Ask a handler directly; all complete replies.
pub fn ask<H: DnsHandler>(h: &H, b: &[u8]) -> Vec<Vec<u8>> {
    let o = Arc::new(Mutex::new(vec![]));
    h.handle_request(Rq(b.to_vec()), Rs(o.clone()));
    let v = o.lock().unwrap().clone();
    v
}

/// A sink that keeps the reply as the message handed over.
pub struct Keep(pub Arc<Mutex<Vec<dns::Message>>>);
impl DnsWrite for Keep {
    fn reply(self, m: dns::Message) -> std::io::Result<()> {
        self.0.lock().unwrap().push(m);
        Ok(())
    }
}

/// Ask a handler directly; the message it replies with.
pub fn ask_msg<H: DnsHandler>(h: &H, b: &[u8]) -> Option<dns::Message> {
    let o = Arc::new(Mutex::new(vec![]));
    h.handle_request(Rq(b.to_vec()), Keep(o.clone()));
    let v = o.lock().unwrap().pop();
    v
}

pub fn query(id: u16, n: &Nm, t: u16) -> Vec<u8> {
    let mut m = Msg::default();
    m.h.id = id;
    m.h.rd = 1;
    m.q.push(Qu { n: n.clone(), t, c: 1 });
    m.fix_counts();
    encode(&m, Compress::No)
}

pub struct Server {
    pub addr: SocketAddr,
}

/// A port that is free for both transports, outside the range of ephemeral ports.
pub fn free_port() -> u16 {
    static NEXT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
    let base = 10000 + (std::process::id() % 18000) as u16;
    loop {
        let p = base + NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) % 4000;
        if let (Ok(_a), Ok(_b)) = (UdpSocket::bind(("127.0.0.1", p)), TcpListener::bind(("127.0.0.1", p))) {
            return p;
        }
    }
}

impl Server {
    /// Start both servers; a request is answered when this returns.
    pub fn start<H: DnsHandler>(h: Arc<H>, udp_threads: usize, tcp_threads: usize, probe: &[u8]) -> Server {
        Server::start_r(h, udp_threads, tcp_threads, probe, 5000)
    }

    /// ... where clients have so many milliseconds to send their request.
    pub fn start_r<H: DnsHandler>(h: Arc<H>, udp_threads: usize, tcp_threads: usize, probe: &[u8], read_ms: u64) -> Server {
        let p = free_port();
        let a = "127.0.0.1".to_string();
        let w = Duration::from_secs(5);
        let (u, t) = (
            UdpParams { address: a.clone(), port: p, write_timeout: w, threads: udp_threads },
            TcpParams { address: a, port: p, write_timeout: w, read_timeout: Duration::from_millis(read_ms), threads: tcp_threads },
        );
        std::thread::spawn(move || start_servers(h, u, t));
        let s = Server { addr: SocketAddr::from(([127, 0, 0, 1], p)) };
        let t0 = real_ms();
        let c = s.client();
        loop {
            c.send(probe).ok();
            c.set_read_timeout(Some(Duration::from_millis(50))).unwrap();
            let mut b = [0; 600];
            if c.recv(&mut b).is_ok() && TcpStream::connect(s.addr).is_ok() {
                break;
            }
            if real_ms() - t0 > 10000 {
                eprintln!("server does not start");
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        s
    }

    pub fn client(&self) -> UdpSocket {
        let c = UdpSocket::bind(("127.0.0.1", 0)).unwrap();
        c.connect(self.addr).unwrap();
        c
    }

    /// All bytes the server sends on a connection after the message b, written in pieces.
    pub fn tcp(&self, b: &[u8], cuts: &[usize]) -> Option<Vec<u8>> {
        let mut c = TcpStream::connect(self.addr).ok()?;
        c.set_nodelay(true).ok()?;
        c.set_read_timeout(Some(Duration::from_secs(8))).ok()?;
        let mut x = (b.len() as u16).to_be_bytes().to_vec();
        x.extend(b);
        let mut at = 0;
        for &k in cuts {
            let k = k.min(x.len());
            if k > at {
                c.write_all(&x[at..k]).ok()?;
                std::thread::sleep(Duration::from_millis(3));
                at = k;
            }
        }
        c.write_all(&x[at..]).ok()?;
        let mut r = vec![];
        c.read_to_end(&mut r).ok()?;
        Some(r)
    }
}

/// Datagrams received within ms milliseconds, or until stop says so.
pub fn collect(c: &UdpSocket, ms: u64, mut stop: impl FnMut(&[u8]) -> bool) -> (Vec<Vec<u8>>, bool) {
    let t0 = real_ms();
    let mut v = vec![];
    loop {
        let e = real_ms() - t0;
        if e >= ms {
            return (v, false);
        }
        c.set_read_timeout(Some(Duration::from_millis(ms - e))).unwrap();
        let mut b = vec![0; 70000];
        if let Ok(n) = c.recv(&mut b) {
            b.truncate(n);
            if stop(&b) {
                return (v, true);
            }
            v.push(b);
        }
    }
}

/// The messages of a TCP byte stream; None if it does not consist of whole messages.
pub fn frames(raw: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut v = vec![];
    let mut p = 0;
    while p < raw.len() {
        let l = u16::from_be_bytes([raw[p], *raw.get(p + 1)?]) as usize;
        v.push(raw.get(p + 2..p + 2 + l)?.to_vec());
        p += 2 + l;
    }
    Some(v)
}
