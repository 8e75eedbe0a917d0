//! C50: sessions whose messages also carry bytes over a TCP or UDP connection.
use crate::pre::{End, Recv, Send, Session};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::error::Error;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::{Arc, Mutex};
use vlib::report::Report;

pub type D = [u8; 128];

// ---------------------------------------------------------------- a session that can do anything

/// what the side that does not choose does next
pub enum Op {
    PutI(Recv<(i64, D), Offer>),
    PutS(Recv<(String, D), Offer>),
    PutV(Recv<(Vec<u8>, D), Offer>),
    GetI(Send<(i64, D), Offer>),
    GetS(Send<(String, D), Offer>),
    Burst(Recv<(i64, D), Recv<(String, D), Recv<((), D), Offer>>>),
    Pull(Send<(i64, D), Send<(String, D), Send<((), D), Offer>>>),
    Swap(Recv<(i64, D), Send<(i64, D), Offer>>),
    Flip(Choose),
    Done(End),
}
pub type Offer = Recv<(D, Op), End>;
pub type Choose = Send<(D, Op), End>;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum K {
    PutI,
    PutS,
    PutV,
    GetI,
    GetS,
    Burst,
    Pull,
    Swap,
    Flip,
}
impl K {
    /// messages: by the chooser?
    fn msgs(self) -> &'static [bool] {
        match self {
            K::PutI | K::PutS | K::PutV => &[true],
            K::GetI | K::GetS => &[false],
            K::Burst => &[true, true, true],
            K::Pull => &[false, false, false],
            K::Swap => &[true, false],
            K::Flip => &[],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Stop {
    /// a side drops everything before the given choice
    Drop(usize, usize),
    /// a side cancels before the given choice
    Cancel(usize, usize),
    /// the server ends the connection before the given choice
    Server(usize),
    /// and the side using the connection then cancels
    ServerThenCancel(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    udp: bool,
    ops: Vec<K>,
    seed: u64,
    /// which sides (0: the caller, 1: the forked one) use the connection
    io: [bool; 2],
    /// who chooses first
    first: usize,
    /// how the server cuts what it sends (TCP), or the sizes of its datagrams (UDP)
    cuts: Vec<u8>,
    stop: Option<Stop>,
    /// who (0, 1: a side; 2: the server, before a message; 3: the server, within a message) takes its time at which choice, in milliseconds
    #[serde(default)]
    pause: Option<(usize, usize, u64)>,
}
/// Where the server listens, as an address and as a user may write it.
fn hosts() -> &'static [(&'static str, &'static str)] {
    static H: std::sync::OnceLock<Vec<(&str, &str)>> = std::sync::OnceLock::new();
    H.get_or_init(|| {
        let mut v = vec![("127.0.0.1", "127.0.0.1"), ("127.0.0.1", "127.0.0.1")];
        let ok = |bind: &str, name: &str| {
            let Ok(l) = TcpListener::bind((bind, 0)) else { return false };
            TcpStream::connect((name, l.local_addr().unwrap().port())).is_ok()
        };
        if ok("::1", "::1") {
            v.push(("[::1]", "[::1]"));
        }
        if ok("127.0.0.1", "localhost") {
            v.push(("127.0.0.1", "localhost"));
        }
        v
    })
}

impl Case {
    fn host(&self) -> (&'static str, &'static str) {
        hosts()[self.h("host", 0, 0) as usize % hosts().len()]
    }
    fn rest(&self, who: usize, i: usize) {
        if let Some((_, _, ms)) = self.pause.filter(|p| (p.0, p.1) == (who, i)) {
            std::thread::sleep(std::time::Duration::from_millis(ms));
        }
    }
    /// the side that chooses at choice `i`
    fn chooser(&self, i: usize) -> usize {
        (self.first + self.ops[..i].iter().filter(|k| **k == K::Flip).count()) % 2
    }
    fn h(&self, t: &str, i: usize, j: usize) -> u64 {
        vlib::report::h64(&(self.seed, t, i, j))
    }
    fn bytes(&self, t: &str, i: usize, j: usize) -> D {
        let mut d = [0; 128];
        for (k, b) in d.iter_mut().enumerate() {
            *b = (vlib::report::h64(&(self.seed, t, i, j, k / 8)) >> (8 * (k % 8))) as u8;
        }
        d
    }
    /// what a receiver that uses the connection gets along with message `j` of choice `i`
    fn wire(&self, i: usize, j: usize) -> (D, usize) {
        if self.io[0] && self.io[1] {
            return (self.bytes("data", i, j), 128);
        }
        let mut d = self.bytes("server", i, j);
        let n = if self.udp { 1 + self.cuts[(i * 3 + j) % self.cuts.len()] as usize % 128 } else { 128 };
        d[n..].iter_mut().for_each(|b| *b = 0);
        (d, n)
    }
    fn int(&self, i: usize, j: usize) -> i64 {
        self.h("int", i, j) as i64
    }
    fn string(&self, i: usize, j: usize) -> String {
        let h = self.h("str", i, j);
        ["é", "x", "", "\0", "long "][h as usize % 5].repeat(h as usize / 5 % 40)
    }
    fn list(&self, i: usize, j: usize) -> Vec<u8> {
        let h = self.h("vec", i, j);
        (0..h % 300).map(|k| (h >> (k % 50)) as u8).collect()
    }
}

/// value and bytes received by a side, with the length reported
type Got = Vec<(usize, usize, String, D, Option<usize>)>;

pub struct Ctx {
    c: Arc<Case>,
    side: usize,
    got: Arc<Mutex<Got>>,
    /// set when the server has ended the connection
    cut: Arc<(Mutex<bool>, std::sync::Condvar)>,
}
impl Ctx {
    fn io(&self) -> bool {
        self.c.io[self.side]
    }
    fn log(&self, i: usize, j: usize, v: String, d: D, n: Option<usize>) {
        self.got.lock().unwrap().push((i, j, v, d, n));
    }
    fn await_cut(&self) {
        let mut g = self.cut.0.lock().unwrap();
        while !*g {
            g = self.cut.1.wait(g).unwrap();
        }
        drop(g);
        // let the end of the connection arrive
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
}

enum Now {
    C(Choose),
    O(Offer),
    E(End),
    Stopped,
}

macro_rules! driver {
    ($m: ident, $sock: ty, $choose: ident, $offer: ident, $send: ident, $recv: ident, $close: ident, $cancel: path) => {
        mod $m {
            use super::*;
            use mpstthree::{$choose, $offer};
            macro_rules! put {
                ($x: ident, $s: expr, $k: expr, $i: expr, $j: expr, $v: expr) => {
                    $send($v, &$x.c.bytes("data", $i, $j), $s, $k, $x.io())?
                };
            }
            macro_rules! get {
                ($x: ident, $s: expr, $k: expr, $i: expr, $j: expr) => {{
                    let (v, s, d, n, k) = $recv($s, $k, $x.io())?;
                    $x.log($i, $j, format!("{v:?}"), d, n);
                    (s, k)
                }};
            }
            fn stops(x: &Ctx, i: usize) -> Option<bool> {
                match &x.c.stop {
                    Some(Stop::Drop(z, k)) if *z == x.side && *k == i => Some(false),
                    Some(Stop::Cancel(z, k)) if *z == x.side && *k == i => Some(true),
                    Some(Stop::ServerThenCancel(k)) if x.io() && *k == i => {
                        x.await_cut();
                        Some(true)
                    }
                    Some(Stop::Server(k)) if x.io() && *k == i => {
                        x.await_cut();
                        None
                    }
                    _ => None,
                }
            }
            fn step(now: Now, k: $sock, i: usize, x: &Ctx) -> Result<(Now, $sock), Box<dyn Error>> {
                vlib::watch::tick();
                x.c.rest(x.side, i);
                match (now, stops(x, i)) {
                    (Now::C(s), Some(true)) => {
                        let k2 = k.try_clone()?;
                        $cancel(s, k);
                        Ok((Now::Stopped, k2))
                    }
                    (Now::O(s), Some(true)) => {
                        let k2 = k.try_clone()?;
                        $cancel(s, k);
                        Ok((Now::Stopped, k2))
                    }
                    (_, Some(false)) => Ok((Now::Stopped, k)),
                    (Now::C(s), None) => {
                        let d = x.c.bytes("choice", i, 0);
                        let Some(op) = x.c.ops.get(i) else { return Ok((Now::E($choose!(Op::Done, s, d)), k)) };
                        Ok(match op {
                            K::PutI => {
                                let (s, k) = put!(x, $choose!(Op::PutI, s, d), k, i, 0, x.c.int(i, 0));
                                (Now::C(s), k)
                            }
                            K::PutS => {
                                let (s, k) = put!(x, $choose!(Op::PutS, s, d), k, i, 0, x.c.string(i, 0));
                                (Now::C(s), k)
                            }
                            K::PutV => {
                                let (s, k) = put!(x, $choose!(Op::PutV, s, d), k, i, 0, x.c.list(i, 0));
                                (Now::C(s), k)
                            }
                            K::GetI => {
                                let (s, k) = get!(x, $choose!(Op::GetI, s, d), k, i, 0);
                                (Now::C(s), k)
                            }
                            K::GetS => {
                                let (s, k) = get!(x, $choose!(Op::GetS, s, d), k, i, 0);
                                (Now::C(s), k)
                            }
                            K::Burst => {
                                let (s, k) = put!(x, $choose!(Op::Burst, s, d), k, i, 0, x.c.int(i, 0));
                                let (s, k) = put!(x, s, k, i, 1, x.c.string(i, 1));
                                let (s, k) = put!(x, s, k, i, 2, ());
                                (Now::C(s), k)
                            }
                            K::Pull => {
                                let (s, k) = get!(x, $choose!(Op::Pull, s, d), k, i, 0);
                                let (s, k) = get!(x, s, k, i, 1);
                                let (s, k) = get!(x, s, k, i, 2);
                                (Now::C(s), k)
                            }
                            K::Swap => {
                                let (s, k) = put!(x, $choose!(Op::Swap, s, d), k, i, 0, x.c.int(i, 0));
                                let (s, k) = get!(x, s, k, i, 1);
                                (Now::C(s), k)
                            }
                            K::Flip => (Now::O($choose!(Op::Flip, s, d)), k),
                        })
                    }
                    (Now::O(s), None) => {
                        let want = x.c.ops.get(i).copied();
                        let taken = |t: K| if want != Some(t) { x.log(i, 99, format!("branch {t:?}"), [0; 128], None) };
                        $offer!(s, {
                            Op::PutI(s) => {
                                taken(K::PutI);
                                let (s, k) = get!(x, s, k, i, 0);
                                Ok((Now::O(s), k))
                            },
                            Op::PutS(s) => {
                                taken(K::PutS);
                                let (s, k) = get!(x, s, k, i, 0);
                                Ok((Now::O(s), k))
                            },
                            Op::PutV(s) => {
                                taken(K::PutV);
                                let (s, k) = get!(x, s, k, i, 0);
                                Ok((Now::O(s), k))
                            },
                            Op::GetI(s) => {
                                taken(K::GetI);
                                let (s, k) = put!(x, s, k, i, 0, x.c.int(i, 0));
                                Ok((Now::O(s), k))
                            },
                            Op::GetS(s) => {
                                taken(K::GetS);
                                let (s, k) = put!(x, s, k, i, 0, x.c.string(i, 0));
                                Ok((Now::O(s), k))
                            },
                            Op::Burst(s) => {
                                taken(K::Burst);
                                let (s, k) = get!(x, s, k, i, 0);
                                let (s, k) = get!(x, s, k, i, 1);
                                let (s, k) = get!(x, s, k, i, 2);
                                Ok((Now::O(s), k))
                            },
                            Op::Pull(s) => {
                                taken(K::Pull);
                                let (s, k) = put!(x, s, k, i, 0, x.c.int(i, 0));
                                let (s, k) = put!(x, s, k, i, 1, x.c.string(i, 1));
                                let (s, k) = put!(x, s, k, i, 2, ());
                                Ok((Now::O(s), k))
                            },
                            Op::Swap(s) => {
                                taken(K::Swap);
                                let (s, k) = get!(x, s, k, i, 0);
                                let (s, k) = put!(x, s, k, i, 1, x.c.int(i, 1));
                                Ok((Now::O(s), k))
                            },
                            Op::Flip(s) => {
                                taken(K::Flip);
                                Ok((Now::C(s), k))
                            },
                            Op::Done(s) => {
                                if want.is_some() {
                                    x.log(i, 99, "branch Done".into(), [0; 128], None);
                                }
                                Ok((Now::E(s), k))
                            },
                        })
                    }
                    (now, _) => Ok((now, k)),
                }
            }
            pub fn drive(mut now: Now, mut k: $sock, x: Ctx) -> Result<(), Box<dyn Error>> {
                let mut i = 0;
                loop {
                    match now {
                        Now::E(s) => return $close(s, k, x.io()),
                        Now::Stopped => return Ok(()),
                        _ => {}
                    }
                    (now, k) = step(now, k, i, &x)?;
                    i += 1;
                }
            }
        }
    };
}

type Io<S> = Result<S, Box<dyn Error>>;
fn send_t<T: std::marker::Send, S: Session>(v: T, d: &D, s: Send<(T, D), S>, k: TcpStream, io: bool) -> Io<(S, TcpStream)> {
    mpstthree::transport::tcp::send::send_tcp(v, d, s, k, io)
}
fn recv_t<T: std::marker::Send, S: Session>(s: Recv<(T, D), S>, k: TcpStream, io: bool) -> Io<(T, S, D, Option<usize>, TcpStream)> {
    let (v, s, d, k) = mpstthree::transport::tcp::recv::recv_tcp(s, k, io)?;
    Ok((v, s, d, None, k))
}
fn close_t(s: End, k: TcpStream, io: bool) -> Io<()> {
    mpstthree::transport::tcp::close::close_tcp(s, k, io)
}
fn send_u<T: std::marker::Send, S: Session>(v: T, d: &D, s: Send<(T, D), S>, k: UdpSocket, io: bool) -> Io<(S, UdpSocket)> {
    let (s, n, k) = mpstthree::transport::udp::send::send_udp(v, d, s, k, io)?;
    if io && n != 128 {
        return Err(format!("send_udp reports {n} bytes").into());
    }
    Ok((s, k))
}
fn recv_u<T: std::marker::Send, S: Session>(s: Recv<(T, D), S>, k: UdpSocket, io: bool) -> Io<(T, S, D, Option<usize>, UdpSocket)> {
    let (v, s, d, n, k) = mpstthree::transport::udp::recv::recv_udp(s, k, io)?;
    Ok((v, s, d, Some(n), k))
}
fn close_u(s: End, k: UdpSocket, _io: bool) -> Io<()> {
    let r = mpstthree::binary::close::close(s);
    drop(k);
    r
}
driver!(tcp, TcpStream, choose_tcp, offer_tcp, send_t, recv_t, close_t, mpstthree::transport::tcp::cancel::cancel_tcp);
driver!(udp, UdpSocket, choose_udp, offer_udp, send_u, recv_u, close_u, mpstthree::transport::udp::cancel::cancel_udp);

// ---------------------------------------------------------------- the other end of the connection

/// bytes received from the connection, and whether its end was seen
type Seen = (Vec<u8>, bool);

fn tcp_server(c: Arc<Case>, l: TcpListener, cut: Arc<(Mutex<bool>, std::sync::Condvar)>) -> Result<Seen, String> {
    let (mut k, _) = l.accept().map_err(|e| e.to_string())?;
    k.set_nodelay(true).ok();
    let mut seen = vec![];
    let mut b = [0; 4096];
    if c.io[0] && c.io[1] {
        loop {
            match k.read(&mut b) {
                Ok(0) => return Ok((seen, true)),
                Ok(n) => {
                    seen.extend(&b[..n]);
                    let _ = k.write_all(&b[..n]);
                }
                Err(_) => return Ok((seen, false)),
            }
        }
    }
    let me = if c.io[0] { 0 } else { 1 };
    let mut t = 0;
    let end = match c.stop {
        Some(Stop::Server(n)) | Some(Stop::ServerThenCancel(n)) => Some(n),
        _ => None,
    };
    for (i, op) in c.ops.iter().enumerate() {
        if end == Some(i) {
            break;
        }
        for (j, by) in op.msgs().iter().enumerate() {
            let sender = if *by { c.chooser(i) } else { 1 - c.chooser(i) };
            if sender == me {
                if end == Some(i + 1) && op.msgs().iter().all(|x| x == by) {
                    // leaves without reading, once everything before the end has been written
                    while matches!(k.peek(&mut b), Ok(n) if n > 0 && n < 128 * (j + 1)) {
                        std::thread::yield_now();
                    }
                    continue;
                }
                let mut d = [0; 128];
                match k.read_exact(&mut d) {
                    Ok(()) => seen.extend(d),
                    Err(_) => return Ok((seen, true)),
                }
            } else {
                let (d, _) = c.wire(i, j);
                let mut p = 0;
                if j == 0 {
                    c.rest(2, i);
                }
                while p < 128 {
                    let n = (1 + c.cuts[t % c.cuts.len()] as usize).min(128 - p);
                    t += 1;
                    if k.write_all(&d[p..p + n]).is_err() {
                        break;
                    }
                    p += n;
                    if j == 0 && p < 128 && p == n {
                        c.rest(3, i);
                    }
                    if p < 128 && t % 4 == 0 {
                        std::thread::sleep(std::time::Duration::from_micros(200));
                    }
                }
            }
        }
    }
    if end.is_some() {
        drop(k);
        *cut.0.lock().unwrap() = true;
        cut.1.notify_all();
        return Ok((seen, true));
    }
    k.set_read_timeout(Some(std::time::Duration::from_secs(90))).ok();
    loop {
        match k.read(&mut b) {
            Ok(0) => return Ok((seen, true)),
            Ok(n) => seen.extend(&b[..n]),
            Err(e) => return Ok((seen, e.kind() == std::io::ErrorKind::ConnectionReset)),
        }
    }
}

/// runs until told to stop with an empty datagram
fn udp_server(c: Arc<Case>, k: UdpSocket, to: std::sync::mpsc::Receiver<SocketAddr>) -> Result<Seen, String> {
    let Ok(to) = to.recv() else { return Ok((vec![], true)) };
    let mut seen = vec![];
    let mut b = [0; 4096];
    if c.io[0] && c.io[1] {
        loop {
            let (n, a) = k.recv_from(&mut b).map_err(|e| e.to_string())?;
            if n == 0 {
                return Ok((seen, true));
            }
            seen.extend(&b[..n]);
            k.send_to(&b[..n], a).map_err(|e| e.to_string())?;
        }
    }
    let me = if c.io[0] { 0 } else { 1 };
    for (i, op) in c.ops.iter().enumerate() {
        for (j, by) in op.msgs().iter().enumerate() {
            let sender = if *by { c.chooser(i) } else { 1 - c.chooser(i) };
            if sender == me && (c.io[0] || c.io[1]) {
                let (n, _) = k.recv_from(&mut b).map_err(|e| e.to_string())?;
                if n == 0 {
                    return Ok((seen, true));
                }
                seen.extend(&b[..n]);
            } else if c.io[0] || c.io[1] {
                let (d, n) = c.wire(i, j);
                if j == 0 {
                    c.rest(2, i);
                    c.rest(3, i);
                }
                let _ = k.send_to(&d[..n], to);
            }
        }
    }
    loop {
        let (n, _) = k.recv_from(&mut b).map_err(|e| e.to_string())?;
        if n == 0 {
            return Ok((seen, true));
        }
        seen.extend(&b[..n]);
    }
}

// ---------------------------------------------------------------- one run

#[derive(Debug, Clone, PartialEq)]
enum Fin {
    Ok,
    Err(String),
    Panic(String),
}
fn fin(r: std::thread::Result<Result<(), String>>) -> Fin {
    match r {
        Ok(Ok(())) => Fin::Ok,
        Ok(Err(e)) => Fin::Err(e),
        Err(e) => Fin::Panic(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()),
    }
}

fn run(c: &Case) -> Result<String, String> {
    let c = Arc::new(c.clone());
    let got = [Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(vec![]))];
    let cut = Arc::new((Mutex::new(false), std::sync::Condvar::new()));
    let ctx = |side: usize| Ctx { c: c.clone(), side, got: got[side].clone(), cut: cut.clone() };
    let inner: Arc<Mutex<Option<Fin>>> = Arc::new(Mutex::new(None));
    let (x0, x1) = (ctx(0), ctx(1));
    let note = inner.clone();
    // the closure run by the forked side keeps its own result: the fork only tells whether it panicked
    macro_rules! sides {
        ($m: ident, $fork: expr, $S: ty, $there: path, $here: path) => {{
            let body = move |s: $S, k| -> Result<(), Box<dyn Error>> {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $m::drive($there(s), k, x1).map_err(|e| e.to_string())));
                let f = fin(r);
                *note.lock().unwrap() = Some(f.clone());
                match f {
                    Fin::Ok => Ok(()),
                    Fin::Err(e) => Err(e.into()),
                    Fin::Panic(e) => panic!("{e}"),
                }
            };
            let (t, s, k) = $fork(body).map_err(|e: Box<dyn Error>| format!("the fork failed: {e}"))?;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $m::drive($here(s), k, x0).map_err(|e| e.to_string())));
            (fin(r), t.join().is_ok())
        }};
    }
    let (here, name) = c.host();
    let any = format!("{here}:0");
    let ((f0, joined), seen) = if c.udp {
        let k = UdpSocket::bind(&any).map_err(|e| format!("environment: {e}"))?;
        let addr = k.local_addr().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        let c2 = c.clone();
        let server = std::thread::spawn(move || udp_server(c2, k, rx));
        let stop = UdpSocket::bind(&any).unwrap();
        let a = format!("{name}:{}", addr.port());
        let r = if c.first == 0 {
            sides!(
                udp,
                |b| mpstthree::transport::udp::fork::fork_udp(b, &any, &a).map(|(t, s, k)| {
                    tx.send(k.local_addr().unwrap()).unwrap();
                    (t, s, k)
                }),
                Offer,
                Now::O,
                Now::C
            )
        } else {
            sides!(
                udp,
                |b| mpstthree::transport::udp::fork::fork_udp(b, &any, &a).map(|(t, s, k)| {
                    tx.send(k.local_addr().unwrap()).unwrap();
                    (t, s, k)
                }),
                Choose,
                Now::C,
                Now::O
            )
        };
        stop.send_to(&[], addr).unwrap();
        (r, server.join().map_err(|_| "environment: the server died")??)
    } else {
        let l = TcpListener::bind(&any).map_err(|e| format!("environment: {e}"))?;
        let a = format!("{name}:{}", l.local_addr().unwrap().port());
        let c2 = c.clone();
        let cut2 = cut.clone();
        let server = std::thread::spawn(move || tcp_server(c2, l, cut2));
        let r = if c.first == 0 {
            sides!(tcp, |b| mpstthree::transport::tcp::fork::fork_tcp(b, &a), Offer, Now::O, Now::C)
        } else {
            sides!(tcp, |b| mpstthree::transport::tcp::fork::fork_tcp(b, &a), Choose, Now::C, Now::O)
        };
        (r, server.join().map_err(|_| "environment: the server died")??)
    };
    let f1 = inner.lock().unwrap().clone().unwrap_or(Fin::Panic("the forked side did not run".into()));
    if joined != (f1 == Fin::Ok) {
        return Err(format!("the forked side ended with {f1:?} and its handle says {}", if joined { "success" } else { "failure" }));
    }
    let fs = [f0, f1];
    // values and bytes
    let mut want: [Vec<(usize, usize, String)>; 2] = [vec![], vec![]];
    let mut sent: Vec<u8> = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        let ch = c.chooser(i);
        for (j, by) in op.msgs().iter().enumerate() {
            let from = if *by { ch } else { 1 - ch };
            let v = match (op, j) {
                (K::PutS | K::GetS, _) | (K::Burst | K::Pull, 1) => format!("{:?}", c.string(i, j)),
                (K::PutV, _) => format!("{:?}", c.list(i, j)),
                (K::Burst | K::Pull, 2) => "()".to_string(),
                _ => format!("{:?}", c.int(i, j)),
            };
            want[1 - from].push((i, j, v));
            if c.io[from] {
                sent.extend(c.bytes("data", i, j));
            }
        }
    }
    for side in 0..2 {
        let g = got[side].lock().unwrap();
        for (n, (i, j, v, d, len)) in g.iter().enumerate() {
            let Some(w) = want[side].get(n) else { return Err(format!("side {side} received {v} too many")) };
            if (*i, *j, v) != (w.0, w.1, &w.2) {
                return Err(format!("side {side} received {v} (message {j} of choice {i}) instead of {w:?}"));
            }
            if c.io[side] {
                let (e, l) = c.wire(*i, *j);
                if *d != e || len.map(|x| x != l).unwrap_or(false) {
                    return Err(format!("side {side}, message {j} of choice {i}: bytes {:?} ({len:?}) instead of {:?} ({l})", &d[..], &e[..]));
                }
            }
        }
        if c.stop.is_none() && g.len() != want[side].len() {
            return Err(format!("side {side} received {} messages instead of {} and ended with {:?}", g.len(), want[side].len(), fs[side]));
        }
    }
    if !sent.starts_with(&seen.0) {
        return Err("the connection carried other bytes than those sent".into());
    }
    let both = c.io[0] && c.io[1];
    match &c.stop {
        None => {
            for side in 0..2 {
                if fs[side] != Fin::Ok {
                    return Err(format!("side {side} ended with {:?}", fs[side]));
                }
            }
            if seen.0 != sent {
                return Err(format!("{} bytes were sent and {} arrived", sent.len(), seen.0.len()));
            }
            if !c.udp && !both && (c.io[0] || c.io[1]) && !seen.1 {
                return Err("the connection was not ended by the close".into());
            }
            Ok("completed".into())
        }
        Some(Stop::Drop(z, _)) | Some(Stop::Cancel(z, _)) => {
            if fs[*z] != Fin::Ok {
                return Err(format!("side {z} stopped and ended with {:?}", fs[*z]));
            }
            if fs[1 - *z] == Fin::Ok {
                return Err(format!("side {z} stopped at {:?} and the other side completed", c.stop));
            }
            if matches!(c.stop, Some(Stop::Cancel(..))) && !seen.1 {
                return Err("the connection was not ended by the cancellation".into());
            }
            Ok(format!("a side {}", if matches!(c.stop, Some(Stop::Drop(..))) { "stopped" } else { "cancelled" }))
        }
        Some(Stop::Server(k)) => {
            // the first receive over the dead connection fails
            let me = if c.io[0] { 0 } else { 1 };
            let recvs = (*k..c.ops.len()).any(|i| c.ops[i].msgs().iter().any(|by| (if *by { c.chooser(i) } else { 1 - c.chooser(i) }) != me));
            if recvs && !matches!(fs[me], Fin::Err(_)) {
                return Err(format!("the connection ended at choice {k} and side {me} ended with {:?}", fs[me]));
            }
            Ok("the connection ended".into())
        }
        Some(Stop::ServerThenCancel(_)) => {
            let me = if c.io[0] { 0 } else { 1 };
            if fs[me] != Fin::Ok {
                return Err(format!("cancelling after the connection ended: {:?}", fs[me]));
            }
            if fs[1 - me] == Fin::Ok {
                return Err("a side cancelled and the other side completed".into());
            }
            Ok("the connection ended, then a side cancelled".into())
        }
    }
}

// ---------------------------------------------------------------- check

fn case() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        Just(K::PutI), Just(K::PutS), Just(K::PutV), Just(K::GetI), Just(K::GetS), Just(K::Burst), Just(K::Pull), Just(K::Swap), Just(K::Flip)
    ];
    (
        any::<bool>(),
        vec(op, 0..12),
        any::<u64>(),
        prop_oneof![3 => Just([true, true]), 3 => Just([true, false]), 3 => Just([false, true]), 1 => Just([false, false])],
        0usize..2,
        vec(any::<u8>(), 1..8),
        proptest::option::of((0u8..6, any::<u8>(), 0usize..2)),
    )
        .prop_map(|(udp, ops, seed, io, first, cuts, stop)| {
            let one = io[0] != io[1];
            let stop = stop.and_then(|(how, at, side)| {
                let at = at as usize % (ops.len() + 1);
                Some(match how {
                    0 | 1 => Stop::Drop(side, at),
                    2 | 3 => Stop::Cancel(side, at),
                    _ if udp || !one => return None,
                    4 => Stop::Server(at),
                    _ => Stop::ServerThenCancel(at),
                })
            });
            Case { udp, ops, seed, io, first, cuts, stop, pause: None }
        })
}

fn refused(rep: &mut Report) {
    // nothing listens there: an error, and the body does not run
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap().to_string();
    drop(l);
    let ran = Arc::new(Mutex::new(false));
    let r2 = ran.clone();
    let r = mpstthree::transport::tcp::fork::fork_tcp(
        move |_: Offer, _| {
            *r2.lock().unwrap() = true;
            Ok(())
        },
        &a,
    );
    if r.is_ok() || *ran.lock().unwrap() {
        rep.violation("fork_tcp succeeded although nothing listens", serde_json::json!({"check": "refused"}));
    }
    let k = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = k.local_addr().unwrap().to_string();
    let r2 = ran.clone();
    let r = mpstthree::transport::udp::fork::fork_udp(
        move |_: Offer, _| {
            *r2.lock().unwrap() = true;
            Ok(())
        },
        &a,
        "127.0.0.1:9",
    );
    if r.is_ok() || *ran.lock().unwrap() {
        rep.violation("fork_udp succeeded although the address is taken", serde_json::json!({"check": "refused"}));
    }
    rep.eval();
    let _ = k;
    let _ = Shutdown::Both;
}

/// Nothing depends on how long a side or the connection takes; all at once, as they mostly sleep.
fn slow(rep: &mut Report) {
    let longest = if rep.thorough() { 66_000 } else { 13_000 };
    let ms = prop_oneof![8 => 1100u64..2600, 4 => 2600u64..6500, 1 => 10_400u64..longest];
    let strat = (case(), 0usize..4, any::<u8>(), ms).prop_filter_map("something to wait for", |(mut c, who, at, ms)| {
        let one = c.io[0] != c.io[1];
        let who = if who >= 2 && !one { who - 2 } else { who };
        c.ops.truncate(6);
        let n = c.ops.len();
        if n == 0 || matches!(c.stop, Some(Stop::Server(_) | Stop::ServerThenCancel(_))) {
            return None;
        }
        if let Some(Stop::Drop(_, k) | Stop::Cancel(_, k)) = &mut c.stop {
            *k %= n + 1;
        }
        let me = if c.io[0] { 0 } else { 1 };
        // the server rests where it has something to send
        let sends = |i: &usize| c.ops[*i].msgs().first().is_some_and(|by| (if *by { c.chooser(*i) } else { 1 - c.chooser(*i) }) != me);
        let able: Vec<usize> = (0..n).filter(|i| who < 2 || sends(i)).collect();
        if able.is_empty() {
            return None;
        }
        c.pause = Some((who, able[at as usize % able.len()], ms));
        Some(c)
    });
    use proptest::strategy::ValueTree;
    let mut run_ = vlib::pbt::runner(rep.seed, "C50/slow", 1, 0);
    let n = rep.n(300, 1500) as usize;
    let cases: Vec<Case> = (0..n).map(|_| strat.new_tree(&mut run_).expect("tree").current()).collect();
    for chunk in cases.chunks(300) {
        vlib::watch::set_case(&serde_json::json!({"check": "slow", "batch": chunk.len()}));
        let out: Vec<Result<String, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = chunk.iter().map(|c| sc.spawn(move || run(c))).collect();
            let mut out = vec![];
            for h in hs {
                out.push(h.join().unwrap_or(Err("internal: panicked".into())));
                vlib::watch::tick();
            }
            out
        });
        for (c, r) in chunk.iter().zip(out) {
            rep.eval();
            match r {
                Ok(k) => {
                    rep.class(&format!("{} {k}, slowly", if c.udp { "udp" } else { "tcp" }));
                    rep.nontrivial(&format!("{c:?}"), || serde_json::json!({"case": c, "outcome": k}));
                }
                Err(e) if e.starts_with("environment:") => {
                    eprintln!("C50: {e}");
                    std::process::exit(3)
                }
                Err(e) => rep.violation(&e, serde_json::json!({"check": "session", "input": c})),
            }
        }
    }
}

pub fn c50(replay: Option<serde_json::Value>) -> ! {
    let mut rep = Report::new("C50", "at least two choices, or a stop");
    vlib::watch::start("C50", rep.seed, if rep.thorough() { 80 } else { 30 }, 240);
    let one = |c: &Case, rep: &mut Report| -> Result<(), String> {
        let r = run(c);
        if let Err(e) = &r {
            if e.starts_with("environment:") {
                eprintln!("C50: {e}");
                std::process::exit(3);
            }
        }
        let k = r?;
        rep.class(&format!("{} {k}", if c.udp { "udp" } else { "tcp" }));
        if c.ops.len() >= 2 || c.stop.is_some() {
            rep.nontrivial(&format!("{c:?}"), || serde_json::json!({"case": c, "outcome": k}));
        }
        Ok(())
    };
    if let Some(v) = replay {
        let c = &v["case"];
        if c["check"] == "refused" {
            refused(&mut rep);
        } else if let Err(e) = one(&serde_json::from_value(c["input"].clone()).unwrap(), &mut rep) {
            rep.violation(&e, c.clone());
        }
        println!("C50: replay passed");
        std::process::exit(0)
    }
    refused(&mut rep);
    let n = rep.n(4000, 150_000);
    vlib::pbt::check_with(&mut rep, "session", n, 800, case(), one);
    slow(&mut rep);
    rep.finish()
}
