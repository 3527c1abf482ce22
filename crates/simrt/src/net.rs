//! Simulated network: byte streams (for blocking clients) and HTTP messages
//! (for asynchronous clients) to registered services.
//!
//! Outage kinds of a service: "down" (connections refused, open ones reset),
//! "hang" (nothing is delivered until the outage ends); any other kind is
//! interpreted by the service itself.
use std::{
    cell::RefCell,
    collections::{BTreeMap, VecDeque},
    io::{self, ErrorKind, Read, Write},
    rc::Rc,
    time::Duration,
};

use crate::{current, task, Sim, Time, MS, SEC};

/// A service that talks over byte streams.
pub trait Server {
    fn open(&self, _sim: &Rc<Sim>, _conn: u64) {}
    fn data(&self, sim: &Rc<Sim>, conn: u64, bytes: &[u8]);
    fn close(&self, _sim: &Rc<Sim>, _conn: u64) {}
}

#[derive(Clone, Debug)]
pub struct HttpReq {
    /// The process that sent it.
    pub epoch: u32,
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct HttpResp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum HttpError {
    /// No connection could be made; the server saw nothing.
    Connect(String),
    /// The connection broke; the server may have acted.
    Broken(String),
    /// The response body broke off.
    Body(String),
}
pub trait HttpServer {
    fn handle(&self, sim: &Rc<Sim>, req: &HttpReq) -> HttpResp;
}

#[derive(Default)]
pub struct Net {
    streams: RefCell<BTreeMap<String, (String, Rc<dyn Server>)>>,
    https: RefCell<BTreeMap<String, (String, Rc<dyn HttpServer>)>>,
    conns: RefCell<BTreeMap<u64, Conn>>,
    next: RefCell<u64>,
}

struct Conn {
    service: String,
    server: Rc<dyn Server>,
    inbox: VecDeque<u8>,
    eof: bool,
    reset: bool,
    to_server: Time,
    to_client: Time,
    process: bool,
}

const LO: Time = 300;
const HI: Time = 30 * MS;

impl Net {
    /// `addr` is `host:port` as the client names it.
    pub fn register(&self, service: &str, addr: &str, s: Rc<dyn Server>) {
        self.streams.borrow_mut().insert(addr.into(), (service.into(), s));
    }
    /// `origin` is `scheme://host[:port]`.
    pub fn register_http(&self, service: &str, origin: &str, s: Rc<dyn HttpServer>) {
        self.https.borrow_mut().insert(origin.into(), (service.into(), s));
    }
    pub fn clear(&self) {
        self.streams.borrow_mut().clear();
        self.https.borrow_mut().clear();
        let c = std::mem::take(&mut *self.conns.borrow_mut());
        drop(c);
    }
    pub fn process_died(&self) {
        let ids: Vec<u64> = self
            .conns
            .borrow()
            .iter()
            .filter(|(_, c)| c.process)
            .map(|(i, _)| *i)
            .collect();
        for i in ids {
            self.conns.borrow_mut().remove(&i);
        }
    }
    pub fn is_open(&self, conn: u64) -> bool {
        self.conns.borrow().contains_key(&conn)
    }

    /// Server side: sends bytes to the client of `conn`.
    pub fn reply(&self, sim: &Rc<Sim>, conn: u64, bytes: Vec<u8>) {
        let Some(service) = self.conns.borrow().get(&conn).map(|c| c.service.clone()) else {
            return;
        };
        let mut delay = sim.latency(&format!("net.{service}.lat"), LO, HI);
        let mut bytes = bytes;
        let mut end = None;
        if let Some(a) = sim.fault(&format!("net.{service}.reply")) {
            if a % 4 < 3 {
                sim.spell(&service, a);
            }
            match a % 4 {
                0 => {
                    bytes.clear();
                    end = Some(false);
                }
                1 => {
                    let n = (a / 4) as usize % bytes.len().max(1);
                    bytes.truncate(n);
                    end = Some(a / 8 % 2 == 0);
                }
                2 => {
                    bytes.clear();
                    end = Some(true);
                }
                _ => delay += (a / 4) % (8 * SEC),
            }
        }
        let at = {
            let mut conns = self.conns.borrow_mut();
            let Some(c) = conns.get_mut(&conn) else { return };
            c.to_client = c.to_client.max(sim.now() + delay);
            c.to_client
        };
        sim.at_abs(at, move |sim| deliver(sim, conn, bytes, end));
    }

    fn outage_end(&self, sim: &Rc<Sim>, service: &str) -> Time {
        let now = sim.now();
        sim.cfg
            .outages
            .iter()
            .filter(|o| o.service == service && o.from <= now && now < o.to)
            .map(|o| o.to)
            .max()
            .unwrap_or(now)
    }

    /// Client side: one HTTP exchange.
    pub fn http(&self, mut req: HttpReq) -> task::Promise<Result<HttpResp, HttpError>> {
        let sim = current();
        req.epoch = sim.epoch.get();
        sim.point("net.http");
        let (res, prom) = task::promise();
        let origin: String = {
            let after = req.url.find("://").map(|i| i + 3).unwrap_or(0);
            let end = req.url[after..].find('/').map(|i| i + after).unwrap_or(req.url.len());
            req.url[..end].to_string()
        };
        let found = self.https.borrow().get(&origin).cloned();
        let Some((service, server)) = found else {
            sim.ev(format_args!("http to unknown host {origin}"));
            sim.at(5 * MS, move |_| {
                res.resolve(Err(HttpError::Connect("dns error".into())))
            });
            return prom;
        };
        let lat = format!("net.{service}.lat");
        let epoch = sim.epoch.get();
        let go = sim.latency(&lat, LO, HI);
        let mut hold = 0;
        match sim.outage(&service).as_deref() {
            Some("down") => {
                sim.at(go, move |_| {
                    res.resolve(Err(HttpError::Connect("connection refused".into())))
                });
                return prom;
            }
            Some("hang") => hold = self.outage_end(&sim, &service) - sim.now(),
            _ => {}
        }
        if let Some(a) = sim.fault(&format!("net.{service}.request")) {
            let (d, e) = match a % 2 {
                0 => (go, HttpError::Connect("connection refused".into())),
                _ => (go + (a / 2) % (3 * SEC), HttpError::Broken("connection reset".into())),
            };
            sim.at(d, move |_| res.resolve(Err(e)));
            return prom;
        }
        sim.at(hold + go, move |sim| {
            if sim.outage(&service).as_deref() == Some("down") {
                res.resolve(Err(HttpError::Broken("connection reset".into())));
                return;
            }
            let resp = server.handle(sim, &req);
            let mut back = sim.latency(&lat, LO, HI);
            let mut out = Ok(resp);
            if sim.outage(&service).as_deref() == Some("hang") {
                back += sim.net.outage_end(sim, &service) - sim.now();
            }
            if let Some(a) = sim.fault(&format!("net.{service}.reply")) {
                if a % 3 < 2 {
                    sim.spell(&service, a);
                }
                match a % 3 {
                    0 => out = Err(HttpError::Broken("connection closed before message completed".into())),
                    1 => out = Err(HttpError::Body("error reading a body from connection".into())),
                    _ => back += (a / 3) % (8 * SEC),
                }
            }
            if sim.epoch.get() != epoch {
                return;
            }
            sim.at(back, move |_| res.resolve(out));
        });
        prom
    }
}

fn deliver(sim: &Rc<Sim>, conn: u64, bytes: Vec<u8>, end: Option<bool>) {
    let service = sim.net.conns.borrow().get(&conn).map(|c| c.service.clone());
    let Some(service) = service else { return };
    match sim.outage(&service).as_deref() {
        Some("hang") => {
            let at = sim.net.outage_end(sim, &service);
            sim.at_abs(at, move |sim| deliver(sim, conn, bytes, end));
            return;
        }
        Some("down") => {
            if let Some(c) = sim.net.conns.borrow_mut().get_mut(&conn) {
                c.reset = true;
            }
            return;
        }
        _ => {}
    }
    let mut conns = sim.net.conns.borrow_mut();
    let Some(c) = conns.get_mut(&conn) else { return };
    if c.reset || c.eof {
        return;
    }
    c.inbox.extend(bytes);
    match end {
        Some(true) => c.reset = true,
        Some(false) => c.eof = true,
        None => {}
    }
}

/// Blocking client side of a byte stream.
#[derive(Debug)]
pub struct TcpStream {
    id: u64,
    read_timeout: Option<Duration>,
}
unsafe impl Send for TcpStream {}
unsafe impl Sync for TcpStream {}

fn us(d: Duration) -> Time {
    d.as_micros().min(u64::MAX as u128 / 4) as Time
}

impl TcpStream {
    pub fn connect(addr: &str) -> io::Result<TcpStream> {
        Self::connect_to(addr, None)
    }
    pub fn connect_timeout(addr: &str, t: Duration) -> io::Result<TcpStream> {
        Self::connect_to(addr, Some(t))
    }
    fn connect_to(addr: &str, timeout: Option<Duration>) -> io::Result<TcpStream> {
        let sim = current();
        sim.point("net.connect");
        let limit = timeout.map(us).unwrap_or(127 * SEC);
        let found = sim.net.streams.borrow().get(addr).cloned();
        let Some((service, server)) = found else {
            sim.ev(format_args!("connect to unknown {addr}"));
            sim.block_sleep(5 * MS);
            return Err(io::Error::new(ErrorKind::Other, "failed to lookup address information"));
        };
        let lat = sim.latency(&format!("net.{service}.lat"), LO, HI);
        sim.block_sleep(lat.min(limit));
        match sim.outage(&service).as_deref() {
            Some("down") => return Err(ErrorKind::ConnectionRefused.into()),
            Some("hang") => {
                let end = sim.net.outage_end(&sim, &service) - sim.now();
                if end >= limit {
                    sim.block_sleep(limit);
                    return Err(ErrorKind::TimedOut.into());
                }
                sim.block_sleep(end);
            }
            _ => {}
        }
        if let Some(a) = sim.fault(&format!("net.{service}.connect")) {
            if a % 4 == 0 {
                sim.block_sleep(limit);
                return Err(ErrorKind::TimedOut.into());
            }
            return Err(ErrorKind::ConnectionRefused.into());
        }
        let id = {
            let mut n = sim.net.next.borrow_mut();
            *n += 1;
            *n
        };
        sim.net.conns.borrow_mut().insert(
            id,
            Conn {
                service,
                server: server.clone(),
                inbox: VecDeque::new(),
                eof: false,
                reset: false,
                to_server: 0,
                to_client: 0,
                process: sim.in_process.get() > 0,
            },
        );
        server.open(&sim, id);
        Ok(TcpStream { id, read_timeout: None })
    }
    pub fn set_read_timeout(&mut self, t: Option<Duration>) -> io::Result<()> {
        self.read_timeout = t;
        Ok(())
    }
    pub fn set_write_timeout(&mut self, _t: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

impl Read for TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let sim = current();
        let id = self.id;
        let ready = || {
            let conns = sim.net.conns.borrow();
            conns.get(&id).map_or(true, |c| !c.inbox.is_empty() || c.eof || c.reset)
        };
        // A lost peer without any timeout would block for hours: the kernel
        // gives up after its keep-alive or retransmission limit.
        let limit = self.read_timeout.map(us).unwrap_or(900 * SEC);
        let ok = sim.block_until(Some(limit), ready);
        sim.point("net.recv");
        let mut conns = sim.net.conns.borrow_mut();
        let Some(c) = conns.get_mut(&id) else {
            return Err(ErrorKind::ConnectionReset.into());
        };
        if !ok {
            return Err(if self.read_timeout.is_some() {
                ErrorKind::WouldBlock.into()
            } else {
                ErrorKind::TimedOut.into()
            });
        }
        if !c.inbox.is_empty() {
            let mut n = buf.len().min(c.inbox.len());
            drop(conns);
            if let Some(a) = sim.fault("net.short_read") {
                n = 1 + a as usize % n;
            }
            let mut conns = sim.net.conns.borrow_mut();
            let c = conns.get_mut(&id).unwrap();
            for b in buf[..n].iter_mut() {
                *b = c.inbox.pop_front().unwrap();
            }
            return Ok(n);
        }
        if c.reset {
            return Err(ErrorKind::ConnectionReset.into());
        }
        Ok(0)
    }
}

impl Write for TcpStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let sim = current();
        sim.point("net.send");
        let id = self.id;
        let service = {
            let conns = sim.net.conns.borrow();
            match conns.get(&id) {
                Some(c) if !c.reset && !c.eof => c.service.clone(),
                _ => return Err(ErrorKind::BrokenPipe.into()),
            }
        };
        if sim.outage(&service).as_deref() == Some("down") {
            sim.net.conns.borrow_mut().get_mut(&id).unwrap().reset = true;
            return Err(ErrorKind::ConnectionReset.into());
        }
        let mut n = buf.len();
        if let Some(a) = sim.fault("net.short_write") {
            n = 1 + a as usize % n;
        }
        if let Some(a) = sim.fault(&format!("net.{service}.request")) {
            sim.net.conns.borrow_mut().get_mut(&id).unwrap().reset = true;
            if a % 2 == 0 {
                return Err(ErrorKind::ConnectionReset.into());
            }
            return Ok(n); // accepted by the local kernel, never delivered
        }
        let lat = sim.latency(&format!("net.{service}.lat"), LO, HI);
        let (at, server) = {
            let mut conns = sim.net.conns.borrow_mut();
            let c = conns.get_mut(&id).unwrap();
            c.to_server = c.to_server.max(sim.now() + lat);
            (c.to_server, c.server.clone())
        };
        let bytes = buf[..n].to_vec();
        to_server(&sim, at, id, service, server, bytes);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn to_server(sim: &Rc<Sim>, at: Time, id: u64, service: String, server: Rc<dyn Server>, bytes: Vec<u8>) {
    sim.at_abs(at, move |sim| {
        match sim.outage(&service).as_deref() {
            Some("hang") => {
                let at = sim.net.outage_end(sim, &service);
                return to_server(sim, at, id, service, server, bytes);
            }
            Some("down") => {
                if let Some(c) = sim.net.conns.borrow_mut().get_mut(&id) {
                    c.reset = true;
                }
                return;
            }
            _ => {}
        }
        server.data(sim, id, &bytes)
    });
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        let Some(sim) = crate::try_current() else { return };
        let c = match sim.net.conns.try_borrow_mut() {
            Ok(mut conns) => conns.remove(&self.id),
            Err(_) => None,
        };
        if let Some(c) = c {
            c.server.close(&sim, self.id);
        }
    }
}
